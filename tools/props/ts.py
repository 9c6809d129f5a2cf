H = "heclib/heclib_c/src/"
MEMFS = "the operating system is replaced by an in-memory file system at link time; the library itself is the real code built from the working tree"
PROPS = [
dict(id="C05", title="The storage flag alone decides which stored regular values a store replaces",
 statement="""Storing regular-interval data over existing data replaces all covered periods (flag 0), only periods that are missing (1), or only by values that
 are not missing (4); with flag 2 a record is written even if everything is missing and with flag 3 a record left with only missing values is removed.
 Periods outside the stored window never change; a record with at least one valid value always exists. Quality, notes and text notes follow their values. This
 holds wherever the window falls relative to record boundaries, across stores of single and double precision and with a time offset.""",
 over=["histories", "inputs"], quant="all sequences of two to six stores over windows around record boundaries x missing-value patterns x five flags x precision, for every block size",
 why="""The tests store a fixed series and read it back; the guarantee is about overlapping stores with every flag at every alignment to the record boundaries,
 where reading, merging, trimming, and deleting a block interact.""",
 files=[H+"Internal/ztsStoreReg7.c", H+"Internal/ztsRegStoreBlock.c", H+"Internal/ztsRegReadBlock.c", H+"Internal/ztsDisaggregate.c", H+"Internal/ztsRetrieveReg7.c"],
 mech=[("block loop", H+"Internal/ztsStoreReg7.c"), ("merge with the stored block", H+"Internal/ztsRegStoreBlock.c"), ("expansion on reading", H+"Internal/ztsDisaggregate.c")],
 technique="stateless model checking: exhaustive store sequences against a reference series (one value per period, independent calendar)",
 note="Every sequence within the bounds is executed and all periods compared. Weekly series are explored at a decade boundary that falls on a week boundary; the other decade boundaries are listed findings. " + MEMFS + "."),
dict(id="C06", title="A window of a regular series returns one value per period at its time",
 statement="""Retrieving a window of a regular series returns exactly one value for every period from the period containing the window's start to the one containing its
 end, each at its own time: the stored value, or missing where none is stored, across records that exist or not. Times include the series' offset; reported start,
 end, interval, offset, units, type and precision agree. Trimming (-1, -3) removes exactly the leading and trailing missing values. Without a window, with a D part
 naming one record or a range, or asking for all times, everything stored there is returned; the reported date/time range is that of the first and last valid value.""",
 over=["inputs"], quant="all windows around a record boundary for all 34 standard intervals x time offsets x data sets x flags x precisions; all subsets of consecutive records",
 why="""A test retrieves a few windows of a few intervals; the guarantee is about every alignment of window, period, offset and record boundary for each interval,
 including leap years and months of different lengths.""",
 files=[H+"Internal/ztsProcessTimes.c", H+"Internal/ztsRetrieveReg7.c", H+"Internal/ztsRegReadBlock.c", H+"Internal/ztsDisaggregate.c", H+"Internal/ztsTrim.c", H+"Public/ztsOffset.c", H+"Public/ztsOffsetAdjustToStandard.c", H+"Utilities/DateTime/numberPeriods.c"],
 mech=[("window computation", H+"Internal/ztsProcessTimes.c"), ("record loop", H+"Internal/ztsRetrieveReg7.c"), ("trimming", H+"Internal/ztsTrim.c"), ("times of the values", H+"Internal/ztsRegAddTimes.c")],
 technique="exhaustive enumeration of retrieval windows on the real code against an independent calendar model",
 note="Every window within the bounds is retrieved and compared value by value. Weekly series only where the record boundary falls on a week boundary (see C05). " + MEMFS + "."),
dict(id="C07", title="Irregular series: merge, replace and windows match an ordered map of times",
 statement="""An irregular series is an ordered map from time to value. Storing with merge (0) sets the given times and keeps all others; storing with replace (1) first
 removes everything from the first to the last given time. Quality, notes and text notes stay with their values, records left empty disappear, and single and double
 precision stores may be mixed. Retrieving a window returns exactly the values from its start to its end, in order and at their times, plus (flags 1, 2, 3) the nearest
 value before and/or after the window found in the record containing that end of the window or the next record beyond it. Without a window, everything is returned; a
 D part naming one record returns that record; the reported date/time range is that of the first and last value.""",
 over=["histories", "inputs"], quant="all pairs and triples of stores over up to eight times around three record boundaries, for the five block sizes; all windows over all subsets of those times",
 why="""The tests store a few series; the guarantee is about how stores and windows interact with record boundaries, where blocks are split, merged, replaced or deleted.""",
 files=[H+"Internal/ztsStoreIrreg7.c", H+"Internal/ztsIrregStoreBlock.c", H+"Internal/ztsIrregMergeBlocks.c", H+"Internal/ztsRetrieveIrreg7.c", H+"Internal/ztsIrregReadBlock.c", H+"Utilities/DateTime/isTimeInRange.c"],
 mech=[("splitting a store into records", H+"Internal/ztsStoreIrreg7.c"), ("merging with the stored record", H+"Internal/ztsIrregMergeBlocks.c"), ("window and neighbours", H+"Internal/ztsRetrieveIrreg7.c")],
 technique="stateless model checking: exhaustive store sequences and windows against an ordered map (independent calendar)",
 note="Stores of one series use one time granularity (minutes or seconds) and the same kinds of attributes. " + MEMFS + "."),
dict(id="C08", title="Everything stored with a time series comes back with it",
 statement="""Whatever is stored with a time series is delivered when it is read: every value exactly (in the stored precision, or converted when the other precision is
 requested), including series with repeated values and missing values, which are stored compressed; the quality and notes of one or two words per value and the text notes, each with the
 value it belongs to; the units, type, time zone name, number of decimal places and user header; for profile series, the depths, the depth units and the value for each depth.
 This holds for a window of the stored series as for the whole, for series within one record or across two, for a window trimmed of leading and trailing times without any value, and
 after a second store of a profile series over the first. A series with notes or quality stored over a whole series with other notes, other quality or none replaces them all; a series whose
number of depths differs from the stored one is refused and leaves it as it was.""",
 over=["inputs", "histories"], quant="all series of three runs of up to 64 repeated, different or missing values; all attribute combinations; all profile patterns over four or five times; all pairs of profile stores; all pairs of kinds of notes, quality and depths",
 why="""Compression depends on run lengths relative to 32-value words and windows; the tests store a few series, mostly of distinct values.""",
 files=[H+"Internal/ztsRegStoreBlock.c", H+"Internal/ztsIrregStoreBlock.c", H+"Internal/ztsAggregate.c", H+"Internal/ztsDisaggregate.c", H+"Internal/ztsRegRepeatUncompress.c", H+"Internal/ztsRegRepeatCompress.c", H+"Internal/ztsInternalHeaderPack.c", H+"Internal/ztsInternalHeaderUnpack.c", H+"Internal/ztsTrim.c", H+"Internal/ztsRegStoreBlock.c", H+"Internal/ztsRegReadBlock.c", H+"Internal/ztsIrregReadBlock.c"],
 mech=[("packing and compression", H+"Internal/ztsAggregate.c"), ("unpacking", H+"Internal/ztsDisaggregate.c"), ("repeat decompression from a start position", H+"Internal/ztsRegRepeatUncompress.c")],
 technique="stateless model checking: exhaustive enumeration of series shapes, attributes and windows on the real code (address sanitizer) against what was stored",
 note="An odd-sized user header is delivered padded to an even number of words (by design). " + MEMFS + "."),
]
