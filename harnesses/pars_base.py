"""Complete sets of parameters, as loadModel gives them to every function of the model."""
from load_base import PHYS, NUM
FULL = dict(PHYS)
FULL['K2coef'] = FULL['Kcoef'] / ((FULL['RhoSed'] - FULL['RhoSea']) * FULL['Gravity'] * (1 - FULL['VoidRatio']))
FULL['BreakerCoef'] = 8 / (FULL['RhoSea'] * FULL['Gravity'] ** 1.5 * FULL['GammaRatio'] ** 2)
FULL['BarRatSlope'] = (FULL['TargetBarHeight'] - FULL['BeachTopElev']) / (FULL['TargetBarWidth'] - FULL['SpitWidth'])
FULL['BarRatInt'] = FULL['BeachTopElev'] - FULL['BarRatSlope'] * FULL['SpitWidth']


def phys(**given):
    return dict(FULL, **given)


def num(**given):
    return dict(NUM, **given)
