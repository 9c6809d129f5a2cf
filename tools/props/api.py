H = "heclib/heclib_c/src/"
A = "heclib/hecdss/hecdss.c"
PROPS = [
dict(id="C16", title="The public C interface delivers what was stored, within the caller's buffers",
 statement="""Through the functions of hecdss.h, what is stored (regular and irregular series as float or double with or without quality; paired data with or without labels; grids; arrays; texts; locations) is what is retrieved, after reopening
 and after any history of stores, deletions and squeezes, and it is the same as through the library functions beneath, whichever interface stored and whichever retrieves (of several columns of quality, the first). Series are delivered for the
 window asked for; without dates (null or empty), with or without a block in the pathname, all the data is. Sizes told beforehand (tsGetSizes: at least the number of values, and the quality size; tsRetrieveInfo; pdRetrieveInfo;
 arrayRetrieveInfo; tsGetDateTimeRange; numberPeriods), record_count, recordType, dataType, getVersion and getFileVersion agree with what is stored. No function writes beyond a buffer or beyond the number of elements it reports;
 a shorter buffer gets what fits: values, ranges and cells from the first on, names and descriptions cut and NUL-terminated (empty if the record has none), labels and texts cut; a text buffer with room is terminated and one too
 small is reported. Paired-data arrays must have the exact size, and an array of the array record is filled only if it has; those of other sizes stay untouched. A retrieval of an absent record or of one of another kind fails, and leaves
 the output untouched. Stored arrays are not changed, a text's stated length beyond its end stores no more than there is, and no function keeps memory.""",
 over=["inputs", "histories"], quant="5 intervals × lengths × windows and no-date forms × array sizes; pairs (triples) of 60 kinds of stores by both interfaces; text lengths 0…200 × buffers; 1…4 ordinates × 1…3 curves × labels × 8 (32) subsets of descriptions; grids, arrays, texts, locations of every small size × buffers; 7 kinds × 12 retrievals; all histories of ≤ 4 (5) of 11 operations; 53 operations repeated",
 why="The tests use buffers that are large enough, records of one kind and full descriptions. A buffer overrun by one, a missing quality, an absent label or a leak shows only for particular combinations.",
 files=[A, "heclib/hecdss/hecdss.h", H+"Internal/ztsInternalHeaderUnpack.c", H+"Internal/ztsInternalHeaderPack.c", H+"Internal/zpdUnitsToHead.c"],
 mech=[("public functions", A), ("text copies", A+" hec_dss_copyString"), ("descriptions of series", H+"Internal/ztsInternalHeaderUnpack.c"), ("descriptions of paired data", H+"Internal/zpdUnitsToHead.c")],
 technique="exhaustive enumeration of inputs, buffer sizes and operation sequences on the real code with exact-size buffers under the address sanitizer, against a reference model and against the library functions beneath", level="model_checking",
 note="ASCII texts, no NULL arguments where a value is required; time patterns and grids without statistics are not covered."),
]
