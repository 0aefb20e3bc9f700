"""Regenerates the 'fixed:' lines of known_findings.txt from /repo's fix commits."""
import subprocess, re, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {  # subject -> property, failing history
 "scalars of ALP and ALP-RD": ("T03", "scalars of an ALP-RD array had another type than the array; compressing a dictionary over it again panicked"),
 "display a long string": ("T03", "displaying a long string scalar cut a character in two and panicked"),
 "read an ALP array in batches": ("T03", "reading an ALP array with exceptions in batches panicked when its children were encoded"),
 "search sorted many values of": ("T03", "searching several values in a patched bit-packed array ignored its exceptions"),
 "count and iterate the set bits": ("T03", "counting or iterating the set bits of an encoded boolean array panicked"),
 "read a null constant": ("T03", "reading a null constant array through its accessor panicked"),
 "search sorted a constant": ("T03", "searching a constant array received from a message compared with the wrong scalar type"),
 "take from chunks that end": ("T03", "taking by narrow indices from a chunked array longer than their type failed"),
 "cast an array of any": ("T03", "casting an encoded array failed or panicked"),
 "subtracting a scalar": ("T03", "subtracting a scalar lost nulls and panicked on overflow"),
 "filter by a predicate of any": ("D02", "a condition over a chunked column gave a chunked mask, by which filtering panicked"),
 "take from a byte bool array by": ("T02", "taking from a byte bool array by encoded indices panicked"),
 "an empty roaring bool array": ("T02", "an empty slice of a roaring bool array reported a minimum and a maximum"),
 "writing a received struct array": ("S01", "a nullable struct array received from a stream lost its nulls when it was written again"),
 "writing a received delta array": ("S01", "a nullable delta array received from a stream lost its nulls when it was written again"),
 "filtering all rows of a chunked": ("T02", "an extension array of chunks of which no row was selected could not be read"),
 "a file whose schema and footer": ("F01", "opening a file whose schema and footer take more than the 8 MiB of the first read panicked"),
 "chunks past the 65536th": ("F01", "a column of more than 65536 chunks read the first chunks again in place of the later ones"),
 "keep the time zone of timestamps": ("F01", "a timestamp column with a time zone read as Arrow record batches lost its zone"),
 "a null minimum or maximum": ("C01", "compressing with a frame-of-reference hint an array whose encoded validity is all null panicked"),
 "floats of both zero signs": ("F04", "a chunk holding both 0.0 and -0.0 became one constant; a scan returned zeros of the wrong sign"),
 "compare FSST strings": ("F03", "an equality filter on an FSST column with over 128 symbols missed equal rows: the rebuilt compressor gave other codes"),
 "take of many patched": ("F03", "filtered bit-packed column with patches gave wrong values"),
 "compare an f64 ALP": ("F03", "filter literal f64 that serializes as f32 failed on an ALP column"),
 "compare any encoding of an extension": ("F03", "filter on a temporal column in a non-extension encoding failed"),
 "compare constants that were read": ("F03", "filter on a constant column read back from a file compared with the wrong literal type"),
 "combine validities": ("F03", "filter with and/or over nullable columns whose validity is not a plain bool array panicked"),
 "filter any encoding of an extension": ("F03", "filtering rows of a date-time-parts column failed"),
 "filter an extension array": ("F03", "filtering rows of a temporal column failed"),
 "scalars of a run-end bool": ("F03", "rows of a run-end bool column changed nullability"),
 "take from a run-end bool": ("F03", "filtered run-end bool column lost its nulls"),
 "take from a byte bool array keeps": ("F03", "filtered byte bool column lost its nullability"),
 "equality of constants": ("F03", "constant column against literal of other nullability never equal"),
 "and/or of a constant": ("F03", "and/or of a constant with an encoded boolean column failed"),
 "a file scan ends": ("F05", "after a read error the scan stream panicked or never ended"),
 "flush a finished file": ("F07", "finalize returned success with bytes still in the sink's buffer"),
 "resolve the field indices": ("F03", "a filter that names columns by position picked columns of the projection"),
 "a row filter does not take": ("F03", "a filter conjunct with unknown true count was taken as selecting nothing"),
 "keep filtering after": ("F03", "rows after a batch with no matching row were returned unfiltered or lost"),
 "comparing an FSST array with a null": ("F03", "filter FSST column with null literal failed"),
 "compare a primitive array with a null": ("F03", "filter primitive column with null literal failed"),
 "iterate the set bits": ("F03", "a sliced selection mask selected rows from before its start"),
 "compare string arrays with 64": ("F03", "filter on strings with 64-bit offsets failed"),
 "take from a string or binary": ("F03", "filtered string column lost its nullability"),
 "and/or of empty": ("F03", "a filter over an empty chunk panicked"),
 "compare an empty constant": ("F03", "a filter over an empty constant chunk panicked"),
 "compare an ALP array with": ("F03", "filter literal an ALP column cannot encode compared wrongly"),
 "compress a sliced sparse": ("F01", "re-compressing a sliced sparse array shifted its values"),
 "empty slice of a roaring": ("F01", "an empty slice of a roaring int array panicked while batches were split"),
 "run-end encoding keeps": ("F01", "run-end encoding merged 0.0 with -0.0"),
 "write a table that has no": ("F01", "a table without batches could not be written and read"),
 "ALP keeps the sign": ("F01", "-0.0 came back as 0.0"),
 "take no rows": ("F01", "an empty selection of a chunked array panicked"),
 "decompress a sliced nullable": ("F01", "a sliced nullable delta array failed to decompress"),
 "slice of a sliced nullable": ("F01", "a twice sliced nullable run-end bool array gave wrong nulls"),
 "convert an empty unaligned": ("F01", "an empty chunk whose buffer is unaligned panicked on conversion to Arrow"),
 "canonicalize constant null": ("F01", "constant null columns of null, string and binary type could not be read"),
 "allow an empty slice": ("F01", "an empty slice of a run-end array was refused"),
 "serialize buffer scalars": ("F01", "binary constants could not be read back"),
 "read an f16 scalar": ("F01", "f16 constants with small bits could not be read back"),
 "VarBinViewArray::from_iter_bin": ("F01", "non-nullable binary columns came back nullable"),
 "values of an empty primitive": ("S01", "an empty primitive array received from a stream aborted the process when its values were read (misaligned empty slice)"),
 "values of an empty bit-packed": ("S01", "an empty bit-packed array received from a stream aborted the process when decoded (misaligned empty slice)"),
 "take rows from a stream": ("S03", "indices narrower than the row offsets, or encoded, or nullable without nulls, failed or panicked"),
 "take rows of a chunked": ("S03", "no indices panicked (unimplemented), narrow or encoded indices failed"),
 "an empty, cut or failed message": ("S02", "an empty stream, and asking again after an error, panicked; a stream cut inside a length prefix ended cleanly"),
 "decoding a non-nullable ALP-RD": ("C01", "a non-nullable ALP-RD array decoded to a nullable one"),
 "statistics of a dictionary": ("T02", "null counts and extremes of dictionary arrays counted entries no row refers to, and no nulls"),
 "bit frequencies of a roaring": ("T02", "merging the bit frequencies of a roaring array panicked"),
 "statistics of a roaring array whose": ("T02", "statistics of a roaring bool array ending in false rows panicked"),
 "run values of a nullable": ("T02", "the values of a run-end array claimed extremes and order of the array without its nulls"),
 "the minimum of booleans": ("T02", "the minimum of nullable booleans that are all true was false"),
 "slice a chunked array": ("T02", "slicing a chunked array without chunks failed"),
 "a constant array of no rows": ("T02", "an empty constant array claimed a minimum, which chunked arrays merged"),
 "an empty primitive array takes": ("T02", "slicing an empty primitive array received from a stream panicked"),
 "taking strings repeatedly": ("T02", "taking rows of a string array with one-byte offsets panicked"),
 "the offsets of empty strings": ("T02", "offsets of Arrow strings with empty values claimed to be strictly sorted"),
 "merging statistics of chunks": ("T02", "the merged extremes, constancy and order of chunks took nulls and unknowns for values"),
 "a scalar read back": ("T02", "statistics and constants read back did not compare with others, and merged wrongly"),
 "a storage that cannot tell": ("O02", "a failed size request panicked"),
 "an object store response of": ("O02", "a short or oversized response was taken as read, or panicked"),
 "an upload with a failed part": ("O01", "an upload reported a failed part once and then completed without it"),
 "a struct without fields": ("D01", "a query that needs only row counts lost rows: a struct without fields became an empty Arrow struct"),
 "reading no columns": ("D01", "counting the rows of a file failed or found none"),
 "a row whose pushed": ("D02", "rows whose pushed down condition is null were selected"),
 "logic over nullable": ("D02", "rows for which one side of an or holds and the other is null were lost with push down"),
 "a list of values": ("D02", "a chain of equalities the engine rewrote to a list failed with push down"),
 "canonicalize a binary": ("F01", "binary columns came back as strings"),
}
path = os.path.join(HERE, "known_findings.txt")
keep = []
if os.path.exists(path):
    keep = [l for l in open(path).read().splitlines() if not l.startswith("fixed:")]
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    m = [v for k, v in P.items() if s.startswith(k)]
    assert len(m) == 1, (s, m)
    out.append(f"fixed: property={m[0][0]} {h} {m[0][1]}")
open(path, "w").write("\n".join(keep + out) + "\n")
