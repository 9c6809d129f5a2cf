H = "heclib/heclib_c/src/"
MEMFS = "the operating system is replaced by an in-memory file system at link time; the library itself is the real code built from the working tree"
PROPS = [
dict(id="C14", title="A catalog lists exactly the records asked for, each once, in order when sorted",
 statement="""zcatalog lists each record that matches the pathname pattern (per part: a star alone, exact, or with a leading and/or trailing star; regardless of case), the record status, the range of data types and
 the comparison with the last write time, and no other, each once, whatever was stored, deleted, renamed, squeezed or cataloged before and by whichever process has the file open. With every name come the record's own data
 type, pathname hash, last write time (that of its last store, or of the squeeze or copy that put it into the file; a rename leaves it) and, when asked for, dates of first and last value and check-sum. A sorted catalog lists the same records with the same attributes, in ascending
 order of A, B and C part, and then for series by version, interval and time, for other records by D, E and F part (grids of one version by time), also when the order is taken from the list stored in the file, and for
 parts of any length. zcollectionCat and the collection sort list the members of the seed's collection (F parts C:sequence| that differ only in the sequence). zcatalogFile writes the same names in the same order, one a line.
 zwhatChanged and zwhatChangedCompare list exactly the records stored since the starting point; by check-sum, those that are new or whose data differ. zgetDataCRC depends on nothing but the data and headers (internal header
 excepted) and changes with any bit of them. hec_dss_catalog fills in no more than the entries and characters the caller has room for, each terminated; hec_dss_record_count agrees with the catalog.
 No call leaves a file descriptor open.""",
 over=["inputs", "histories"], quant="all one- and two-part patterns over a two-letter alphabet, all type ranges × statuses × write-time comparisons on a file with every data type, all histories of up to 4 (5) operations, all sequences of up to 4 (6) operations of two processes, all what-changed histories of up to 4 (5) operations",
 why="The tests catalog one fixed file with a handful of patterns. A wrong border of a wildcard, a filter that is ignored, a stale stored order or a cut sort key show only for particular names and histories.",
 files=[H+"Public/zcatalog.c", H+"Internal/zcatalogInternal.c", H+"Internal/zcatInternalSort.c", H+"Internal/zcatSortPath.c", H+"Internal/zcatParsePath.c", H+"Internal/zcatComparePath.c", H+"Public/zcatalogFile.c", H+"Public/zcollectionCat.c", H+"Public/zwhatChangedCompare.c", H+"Public/zgetDataCRC.c", "heclib/hecdss/hecdss.c"],
 mech=[("scan of the bins with all filters", H+"Internal/zcatalogInternal.c"), ("sorting and the stored order", H+"Internal/zcatInternalSort.c"), ("sort keys", H+"Internal/zcatSortPath.c"), ("patterns", H+"Internal/zcatComparePath.c"), ("comparison with a starting point", H+"Public/zwhatChangedCompare.c")],
 technique="exhaustive enumeration of patterns, filters and operation histories on the real code (with the address sanitizer), compared with an independent pattern matcher and an independent reading of the file", level="model_checking",
 note="Stars inside a part (not legal) and two stars in a row are not constrained, nor the relative order of series and other records with equal A, B and C part. Collections whose sequences have different lengths are not considered one. Changes within the same millisecond as the starting point are not seen by design. The temporary files of a sorted catalog are real files in /tmp. " + MEMFS + "."),
]
