"""symx: bounded symbolic execution of plain Python source, decided by Z3."""
