FAMS = ["batch", "haf", "tor", "haf2", "per", "mtl", "gates", "misc", "herm", "symp", "dec", "fock", "means", "conv", "ent", "graph", "samp"]
