H = "heclib/heclib_c/src/"
PROPS = [
dict(id="C19", title="An alias stands for its record, and only for it, through every history",
 statement="""A record may be given any number of aliases, by its own name or through an alias of it. After every history of writes, additions and removals of aliases (one or all), deletions, undeletions, renames of records to longer or
 shorter names and over others, squeezes and copies of the file and re-openings, at every reclaim level and from several handles on the file: reading any of the names gives the record as last written through any of them, of every kind of
 record, and existence, type and size say the same of each; every name knows the record's own name, the number of aliases and their list, the record's name first, then from the newest alias to the oldest; a deletion by any of the names
 takes the record and all its names away, and an undeletion brings back the record alone; a removed alias, and it alone, is no longer there, while the record and its other aliases are; a rename takes the aliases along; squeezing or
 copying the file keeps them. An alias of a name that is not there, or with a name that is taken, is refused, as is removing as an alias what is none, and removing the aliases of a name that is not there or has none; these change nothing.
 The catalogue of records lists records only, that of aliases aliases only, the full one both, sorted or not; the file's counts of both are right, its structure is sound and the file checkers find nothing wrong.""",
 over=["histories", "inputs", "configurations"], quant="all 3-operation (4) histories over 28 operations on 4 names from 6 starting files × 5 file layouts and reclaim levels; all 2–3-operation histories over 26 operations, each by one of two handles, × 12; 1 to 12 (30) aliases in 3 orders × 8 operations through each name × 5 more; 13 kinds of records × all sequences of 3 (5) stores of 3 sizes through 3 names × 2 reclaim levels",
 why="The tests add and remove a few aliases in one order. An alias is a link to a record, or to another alias, by address, which writes, renames, deletions and space reclaimed elsewhere move or take away; whether it still leads to its record depends on the history.",
 files=[H+"Public/zaliasAdd.c", H+"Public/zaliasRemove.c", H+"Public/zaliasRemoveAll.c", H+"Public/zaliasList.c", H+"Public/zaliasGetPrimary.c", H+"Internal/zcheckInternal.c", H+"Internal/zreadInfo.c", H+"Internal/zdeleteInternal.c", H+"Public/zrename.c", H+"Internal/zwriteExisting.c", H+"Public/zcopyFile.c", H+"Internal/zcatalogInternal.c"],
 mech=[("linking the alias", H+"Public/zaliasAdd.c zaliasAdd()"), ("unlinking", H+"Public/zaliasRemove.c zaliasRemove()"), ("following the links to the record", H+"Internal/zcheckInternal.c zcheckInternal()"), ("deleting the record with its aliases", H+"Internal/zdeleteInternal.c")],
 technique="exhaustive enumeration of operation histories up to a depth against a model of records and their names, on the real code over an in-memory file system; every name looked at in every way after the operations", level="model_checking",
 note="Renaming an alias itself, or a record over an alias, is not part of the interface and not claimed."),
]
