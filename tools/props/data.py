H = "heclib/heclib_c/src/"
MEMFS = "the operating system is replaced by an in-memory file system at link time; the library itself is the real code built from the working tree"
PROPS = [
dict(id="C09", title="Paired data comes back whole or in part, as stored or partly replaced",
 statement="""A table of curves (paired data) stored in single or double precision is delivered exactly (converted when the other precision is requested), with its curve labels, units and types of both
 variables, time zone name, decimal places, axis flag and user header. Retrieving some curves and ordinates delivers exactly that part, with the labels of those curves. Storing some
 curves and ordinates into an existing or pre-allocated table replaces exactly those values (and the labels of those curves, when labels are given, whatever their length) and nothing else: not the other values, labels or
 attributes, nor a neighbouring record. Storing a whole table over a table of another size or precision leaves only the new one.""",
 over=["inputs", "histories"], quant="all tables up to 6 x 4 with all parts; all partial stores and all pairs of partial stores; all pairs of whole stores of different shapes",
 why="""Values are packed two to a word on disk; whether a part starts at an odd position, and how labels change length, matter. No existing test stores or retrieves a part.""",
 files=[H+"Public/zpdStore.c", H+"Public/zpdRetrieve.c", H+"Internal/zpdUnitsToHead.c", H+"Utilities/convertDataArray.c"],
 mech=[("whole and partial store", H+"Public/zpdStore.c"), ("whole and partial retrieval", H+"Public/zpdRetrieve.c")],
 technique="stateless model checking: exhaustive tables, windows and pairs of partial stores on the real code (address sanitizer) against a table model",
 note="A user header that reads as text is padded with blanks and an odd-sized one is delivered with an extra word (by design). Partial retrievals deliver no user header (by design). " + MEMFS + "."),
dict(id="C10", title="Text, arrays, locations, grids, TINs and embedded files come back as stored",
 statement="""A text record (text, table with rows and columns, labels), an array record (integers, floats, doubles), the location of a place, a grid, a TIN and an embedded file or text file that was
 stored is delivered exactly as stored: every character and value, counts, attributes, descriptions and user header (of any length, a multiple of four or not; printable ASCII; blanks at the end of a grid or TIN
 description are not kept), compressed or not, alone or among other records, over an earlier record of the same kind of any size, in the same session, after closing and reopening, and after squeezing. A location belongs
 to its A and B parts: it is delivered for any pathname of the place, with a series or paired data when asked for; storing data with a location keeps a location already there, and so does
 zlocationStore with flag 0. A grid or TIN can be retrieved without its cells. A missing record is reported as not found and no existing output file is touched.""",
 over=["inputs", "histories"], quant="all text lengths 1..42, table shapes up to 4 x 4, array sizes up to 5/5/5, name lengths, grid shapes up to 7 x 7 with and without compression, small TINs, file sizes up to 72 and around pages; all sequences of up to three stores of twelve kinds in two places",
 why="""Strings are packed into four-byte words and values into eight-byte pairs; whether a length is a multiple of the word, odd or even, or an old record was larger, decides which path is taken. Tests store one
 of each; embedded files and TINs had no working test at all (the first never worked).""",
 files=[H+"Public/ztextStore.c", H+"Public/ztextRetrieve.c", H+"Public/zarrayStore.c", H+"Public/zarrayRetrieve.c", H+"Public/zlocationStore.c", H+"Public/zlocationRetrieve.c", H+"Public/zspatialGridStore.c", H+"Public/zspatialGridRetrieve.c", H+"Public/zspatialTinStore.c", H+"Public/zspatialTinRetrieve.c", H+"Public/zbinaryStoreFromFile.c", H+"Public/zbinaryRetrieveToFile.c", H+"Public/ztextStoreFromFile.c", H+"Public/ztextRetrieveToFile.c"],
 mech=[("packing of text", H+"Public/ztextStore.c"), ("packing of grids and compression", H+"Public/zspatialGridStore.c"), ("location records", H+"Public/zlocationStore.c")],
 technique="stateless model checking: exhaustive record shapes and store sequences on the real code (address sanitizer) against the stored objects",
 note="Text holds no null characters and lengths count characters as the caller gave them. " + MEMFS + "."),
]
