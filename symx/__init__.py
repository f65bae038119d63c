"""symx: symbolic execution of the real HapuaModel source over numpy object arrays."""
