#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import jobs


def p(i, title, statement, over, text, why, files, mech, note):
    return dict(id=i, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note)


COMMON = ("Real code: LLVM IR of /repo compiled by rustc on every run, executed symbolically; remaining branches and assertions are decided by SMT "
          "solvers (z3, cvc5). Counterexamples are replayed natively. Trusted: rustc front end at opt-level 1, the executor "
          "(self-tested, and validated on sampled paths against native runs), the solvers. Bounded: see bounds in the evidence file.")

PROPS = [
    p("C01", "Lossless images come back exactly",
      "An image compressed at maximal quality (and, where a channel is marked as chroma, with chroma scale one) and decompressed without downsampling is identical to the original, byte for byte, for every "
      "encoder, filter, block size, channel and layer layout and colour transform, and the header read back equals the one that was written.",
      ["inputs", "configurations"], "every image of the covered shapes (each sample position in turn over all 256 values, the rest patterned), all encoders x filters x block exponents x colour programs",
      "The tests round-trip a handful of fixed images; a wrong context, boundary or escape in one coefficient value at one position of one shape stays unseen.",
      ["src/lib.rs", "src/compress/mod.rs", "src/encode/mod.rs", "src/lifting", "src/quant/mod.rs", "src/color_transform/mod.rs"],
      [("lossless pipeline", "src/lib.rs compress_simple / decompress_simple"), ("entropy coder pair", "src/encode/mod.rs encode / decode"), ("block layout", "src/compress/mod.rs")], ""),
    p("C02", "Decoding hostile data ends with an error or an image",
      "Reading a header and decompressing never panics, never loops for ever, never reads or writes outside the buffers it was given and never writes past the output buffer, whatever bytes it is given: "
      "it returns an error or an image of the size the header states.",
      ["inputs"], "all values of 1-3 bytes at every position of valid streams, arbitrary short payloads, arbitrary bits inside blocks, arbitrary colour programs",
      "The existing tests try a few truncated and malformed buffers; the decoder uses unchecked indexing and data-dependent shifts and sizes.",
      ["src/lib.rs", "src/compress/mod.rs", "src/encode/mod.rs", "src/bits/mod.rs", "src/color_transform/mod.rs", "src/processing/variable_chunks_iterator.rs", "src/header/mod.rs"],
      [("payload decoder", "src/compress/mod.rs decompress_image_data"), ("program decoder", "src/color_transform/mod.rs decode"), ("block decoder", "src/encode/mod.rs decode")],
      "Memory safety is decided on the release profile for every path: each load and store is checked against its allocation."),
    p("C03", "Headers are validated and survive serialisation",
      "A header can be built exactly when all its fields fit the file format and the image size is representable; writing it and reading it back gives the same header, always in 32 bytes; reading any 32 bytes "
      "gives an error or a header that satisfies the same rules, and the sizes it reports (image, channel, downsampled, buffers) agree with its fields.",
      ["inputs"], "all field values, all 32-byte strings and every shorter prefix", "Tests check a few headers; the packed fields overlap at bit boundaries and the size arithmetic can overflow.",
      ["src/header/mod.rs", "src/header/builder.rs"], [("builder validation", "src/header/builder.rs build"), ("packed fields", "src/header/mod.rs encode / decode"), ("size arithmetic", "src/header/mod.rs get_*_size")], ""),
    p("C04", "Golomb-Rice codes invert and follow the format",
      "Every value written with one of the three variable-length codes at any parameter and any bit position is read back unchanged, consumes exactly the bits written, leaves the neighbouring fields intact, and "
      "its bits are those the format prescribes (limited unary part, escape to a larger parameter).",
      ["inputs"], "all 32-bit values (31 bits for the sign-carrying codes) at parameters 0..24 and all bit offsets",
      "Tests use a table of small values; escapes nest up to several levels and only large values reach them.",
      ["src/encode/mod.rs", "src/bits/mod.rs"], [("codes", "src/encode/mod.rs unsigned_code, interleaved_code, signed_code and decoders")], ""),
    p("C05", "The bit stream returns what was written",
      "Any sequence of fields of 1 to 31 bits written to a stream is read back in order, whatever their values and however they straddle words; runs of zeros are counted up to the limit; flushing pads to whole "
      "words; a destination without room gives an error and is never overrun.",
      ["inputs", "histories"], "arbitrary field values for the listed width sequences; arbitrary words and offsets for zero runs; every destination size",
      "Tests write a few fixed sequences; carry between the cache word and the stream depends on the history of offsets.",
      ["src/bits/mod.rs"], [("writer and reader", "src/bits/mod.rs BitsIOWriter / BitsIOReader")], ""),
    p("C06", "Entropy coding loses nothing at any quality",
      "Whatever the quality, the compressed form carries exactly the quantised coefficients: decoding a block returns the coefficients that were encoded, for every encoder, block shape and resolution level, and "
      "decompressing an image gives exactly what the inverse stages make of the coefficients the forward stages produced.",
      ["inputs", "configurations"], "arbitrary coefficients in blocks of the covered shapes; arbitrary samples at seven qualities",
      "Adaptive state (contexts, run coder) must stay in step between encoder and decoder; a divergence needs particular coefficient histories.",
      ["src/encode/mod.rs", "src/compress/mod.rs", "src/processing/image.rs"],
      [("context model", "src/encode/mod.rs get_context, add_context"), ("run coder", "src/encode/mod.rs get_run_coder*"), ("block split", "src/processing/image.rs into_chunks_mut")], ""),
    p("C07", "Both wavelet filters are exactly invertible",
      "Applying a wavelet filter and then its inverse returns every plane of samples unchanged, for every width and height including single rows and columns, and never touches anything else.",
      ["inputs", "configurations"], "all planes of the covered sizes, every sample arbitrary", "Tests transform fixed small matrices; boundary handling differs by size modulo powers of two.",
      ["src/lifting", "src/processing/overlapping_chunks_iterator.rs", "src/processing/double_overlapping_chunks_iterator.rs"],
      [("filters", "src/lifting/linear.rs, src/lifting/cubic.rs"), ("neighbour iteration", "src/processing")],
      "Small sizes run with rewriting of sums off (--raw), the solver decides every assertion; at large sizes the rewriting of the executor's terms (x + f(y) - f(y)) decides."),
    p("C08", "Colour transforms are undone exactly and mean what they say",
      "Every colour transform program (each channel written at most once, never from itself) is undone exactly by decoding, in both channel layouts; its effect is the weighted integer formula of its factors (rounding down when the denominator is 2, 4 or 8 and toward zero otherwise), "
      "results are clamped to bytes, skipped channels stay untouched, and a program survives serialisation with the same steps and chroma flags.",
      ["inputs", "programs"], "arbitrary samples, factors and denominators for programs of the covered shapes; the predefined programs",
      "Tests use the predefined programs on fixed data; rounding of negative sums and the order of dependent steps matter.",
      ["src/color_transform/mod.rs"], [("forward and inverse", "src/color_transform/mod.rs transform_*, detransform_*"), ("serialisation", "src/color_transform/mod.rs encode / decode")], ""),
    p("C09", "Quantisation error is bounded by the step of the level",
      "Quantising and reconstructing a coefficient keeps zero and the sign, leaves it unchanged where the level's quality is maximal, and otherwise errs by less than the step inside the dead zone and by at most half "
      "a step plus one outside; each coefficient is treated by its own position's level only.",
      ["inputs", "configurations"], "every position of the covered planes with an arbitrary coefficient, at the selected qualities and both maxima",
      "Tests compare against fixed matrices for a few qualities.",
      ["src/quant/mod.rs"], [("quantise and reconstruct", "src/quant/mod.rs quantize / dequantize")], ""),
    p("C10", "A prefix of a stream decodes to what it contains",
      "Decompressing a prefix of a stream behaves as if every block that is not wholly present were zero and reports where more data is needed, or reports completion when nothing the requested resolution needs is "
      "missing; a prefix that ends inside a resolution level other than the last may instead give an underflow error. Test mode reports the same without decoding.",
      ["inputs", "crash_points"], "every prefix length of streams of the covered images, three resolutions",
      "Tests cut streams at one or two places; which blocks survive depends on where the cut falls in the interleaved block tables.",
      ["src/compress/mod.rs", "src/processing/variable_chunks_iterator.rs"], [("truncation logic", "src/compress/mod.rs decompress_image_data"), ("block slicing", "src/processing/variable_chunks_iterator.rs")], ""),
    p("C11", "Downsampled decoding gives the coarser image of the full stream",
      "Decompressing with downsampling gives exactly the image that the inverse stages compute from the coefficients of the remaining resolution levels, in the size the header reports, with every encoder and filter, "
      "as long as one level remains; bytes behind that size stay untouched.",
      ["inputs", "configurations"], "downsampling 1..3 of the covered images, arbitrary sample values", "Tests decode a few photographs with downsampling against stored results.",
      ["src/compress/mod.rs", "src/lib.rs", "src/quant/mod.rs", "src/encode/mod.rs"], [("downsampled loop", "src/compress/mod.rs decompress_image_data"), ("shifted quality", "src/compress/mod.rs unlift_and_dequantize")], ""),
    p("C12", "Compression never overruns its buffer",
      "Compressing into a buffer of any length gives an error or exactly the bytes that an ample buffer receives; it never panics, never writes past the end, and a buffer with ample room is never refused.",
      ["inputs", "configurations"], "every buffer length from zero to beyond the result, arbitrary sample values", "Tests try one or two small buffers; each level splits the remaining room among its blocks.",
      ["src/compress/mod.rs", "src/lib.rs", "src/bits/mod.rs"], [("room per block", "src/compress/mod.rs compress_image_data"), ("bit writer", "src/bits/mod.rs")], ""),
    p("C13", "Results do not depend on threads or schedule",
      "With multithreading enabled, compression and decompression give the same bytes, results and errors as the sequential build, on valid, damaged and truncated data and on short buffers, whatever the order in which the "
      "parallel tasks run, and no two concurrent tasks touch the same byte unless both only read it.",
      ["schedules", "inputs"], "all pairs of tasks of every parallel region checked for conflicting accesses on every path; five task orders", "A test run sees a few schedules on one machine; a race or an order dependence need not show.",
      ["src/processing/maybe_parallel.rs", "src/compress/mod.rs", "src/lifting", "src/quant/mod.rs", "src/processing/image.rs"],
      [("parallel iteration", "src/processing/maybe_parallel.rs"), ("shared image", "src/processing/image.rs")],
      "rayon itself is replaced by a sequential stub that runs the tasks of each parallel call in a chosen order and records accesses."),
    p("C14", "Uniform images survive every quality",
      "An image in which each channel has one constant value is reproduced exactly at every quality, chroma scale, filter, encoder and predefined colour transform, and so is each of its downsampled versions.",
      ["inputs", "configurations"], "every channel value at the covered shapes, qualities and programs", "Tests contain no lossy exactness check; a bias in rounding would shift flat areas by one only at some values.",
      ["src/quant/mod.rs", "src/lifting", "src/color_transform/mod.rs", "src/compress/mod.rs"], [("DC coefficient", "src/compress/mod.rs, src/quant/mod.rs")], ""),
    p("C15", "Valid images never overflow or panic",
      "Compressing and decompressing a valid image never panics and never overflows integer arithmetic: the build with overflow checks gives the same bytes as the release build.",
      ["inputs", "configurations"], "arbitrary samples in the covered shapes at four qualities with each predefined program", "Overflow needs extreme coefficient sums that test images do not reach.",
      ["src/encode/mod.rs", "src/lifting", "src/color_transform/mod.rs", "src/quant/mod.rs"], [("context sums", "src/encode/mod.rs"), ("boosted samples", "src/color_transform/mod.rs"), ("filters", "src/lifting")], ""),
    p("C16", "Streams and images agree with the original GFWX implementation",
      "For every 8-bit image and every supported setting the compressed bytes equal those of the original C++ implementation (reference_app/gfwx.hpp), the original's streams decode to the image the original's decoder gives, "
      "whole or downsampled (apart from downsampled Turbo streams, which the original decodes wrongly), and prefixes that both accept decode to the same image.",
      ["inputs", "configurations"], "arbitrary samples in the covered shapes, encoders, filters, programs, layers, block sizes and qualities; prefixes of every length",
      "The functional tests compare a handful of photographs with the reference application, without colour programs, layers or small blocks; two decoders differing in one rounding agree on most pictures.",
      ["src/encode/mod.rs", "src/compress/mod.rs", "src/lifting", "src/quant/mod.rs", "src/color_transform/mod.rs", "src/header/mod.rs", "src/bits/mod.rs", "reference_app/gfwx.hpp"],
      [("encoder", "src/compress/mod.rs compress_aux_data, src/lib.rs compress_simple"), ("decoder", "src/compress/mod.rs decompress_aux_data, src/lib.rs decompress_simple")],
      "Both implementations are executed symbolically, the original from clang's LLVM IR of an unmodified copy of gfwx.hpp (only its floating-point size limit test is replaced by an integer one)."),
    p("C17", "The stages of the public interface compose to the simple calls",
      "Writing a header, metadata of the announced size, the colour program and the image data with the separate public calls - to and from sources and destinations that transfer any number of bytes at a time - gives "
      "the bytes the single compression call gives with the metadata inserted; each reading stage consumes exactly its part and returns what was written; the separate stages and the single call decode such a stream, and the same "
      "stream followed by further bytes, to the same image, and the test mode returns the same result without touching the data.",
      ["inputs", "configurations"], "arbitrary samples and metadata bytes in the covered shapes, encoders, filters, programs, layers, qualities, transfer sizes and downsamplings",
      "The tests exercise the simple calls or single stages on a few fixed inputs and never a stream with metadata, short transfers or trailing bytes.",
      ["src/lib.rs", "src/compress/mod.rs", "src/color_transform/mod.rs", "src/header/mod.rs", "src/bits/mod.rs"],
      [("single calls", "src/lib.rs"), ("stage interfaces", "src/compress/mod.rs compress_aux_data / decompress_aux_data, src/color_transform/mod.rs, src/header/mod.rs")], ""),
    p("C18", "Work is split into parts that cover everything once",
      "Cutting an image into blocks yields, channel after channel in raster order, blocks in which every cell of every channel lies exactly once; through a block its own cells of the current level can be written, other blocks' cells of that level "
      "can be neither written nor read, all coarser cells can be read, and no access of the checked interface leaves the data or, inside the image, goes to another cell than asked for. Cutting rows into steps yields each odd piece exactly once with its correct "
      "neighbours, and cutting a stream by block sizes yields consecutive pieces of those sizes until sizes or data are used up.",
      ["inputs", "configurations"], "all image sizes, cells, coordinates, slice lengths, steps and block sizes within the stated bounds",
      "The tests walk a few fixed sizes; remainders, sizes equal to a multiple of the block and empty ends each need their own size, and the access rules are what makes the parallel use of unchecked indexing sound.",
      ["src/processing/image.rs", "src/processing/overlapping_chunks_iterator.rs", "src/processing/double_overlapping_chunks_iterator.rs", "src/processing/variable_chunks_iterator.rs"],
      [("blocks", "src/processing/image.rs ImageChunkIteratorMut, Index/IndexMut"), ("rows and columns", "src/processing/overlapping_chunks_iterator.rs, double_overlapping_chunks_iterator.rs"),
       ("blocks of a stream", "src/processing/variable_chunks_iterator.rs")], ""),
    p("C19", "Failing transfers are reported, interrupted ones are not noticed",
      "Reading or writing a header, a colour program or the coefficients of an area through a source or destination that at any transfers moves fewer bytes or is interrupted gives what an undisturbed transfer gives; when a transfer "
      "fails or the source or destination ends early, the call returns that error, never a result, and what has reached the destination is a prefix of the right bytes.",
      ["inputs", "fault_sequences"], "all schedules of up to three faults among the transfers of a call, kinds and places arbitrary",
      "The tests use slices and vectors, which never transfer less than asked, never fail in the middle and never interrupt.",
      ["src/header/mod.rs", "src/color_transform/mod.rs", "src/bits/mod.rs", "src/encode/mod.rs", "src/errors.rs"],
      [("header", "src/header/mod.rs encode / decode"), ("program", "src/color_transform/mod.rs encode / decode"), ("bit stream and block coding", "src/bits/mod.rs, src/encode/mod.rs encode / decode")], ""),
    p("C20", "Calls do not depend on what was done before",
      "What compressing and decompressing give depends on their arguments alone: not on images compressed or decompressed earlier (whole, downsampled, cut short, damaged or refused, with the same or other settings), "
      "nor on what the buffers handed in held before.",
      ["histories", "inputs"], "arbitrary samples and buffer contents; histories of up to sixteen earlier calls on images that differ in any of the settings",
      "The tests call each function once or twice on fresh, cleared buffers in whatever order the test runner picks; state kept between calls shows only for particular pairs of calls.",
      ["src/lib.rs", "src/compress/mod.rs", "src/color_transform/mod.rs", "src/header/mod.rs"],
      [("simple calls", "src/lib.rs compress_simple / decompress_simple"), ("output of samples", "src/color_transform/mod.rs detransform_and_to_interleaved"), ("block buffers", "src/compress/mod.rs compress_image_data")], ""),
    p("C21", "A channel depends on nothing but itself",
      "Without a colour transform, what a channel of an image decodes to (whole or downsampled) depends only on its own samples, the filter, the quality and whether it is marked as chroma: not on the encoder, the block size, "
      "the intent, or the other channels and layers and their number; and the stream consists, level by level, of the blocks each channel would have as an image of its own.",
      ["inputs", "configurations"], "arbitrary samples in the covered shapes, sets of chroma channels, qualities, block sizes and downsamplings, and all pairs of encoders",
      "The tests compare streams of a few fixed images with stored ones; that channels, layers, encoders and block sizes do not show in the image is a relation between runs that no stored result states.",
      ["src/compress/mod.rs", "src/color_transform/mod.rs", "src/processing/image.rs", "src/encode/mod.rs", "src/lib.rs"],
      [("channels and layers", "src/compress/mod.rs, src/color_transform/mod.rs get_layer"), ("blocks", "src/processing/image.rs"), ("encoders", "src/encode/mod.rs")], ""),
]
TECH = "symbolic execution of the compiled code (rustc LLVM IR) with SMT (z3, cvc5)"


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in PROPS:
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                                "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}}) + "\n")
    checks = []
    for x in PROPS:
        i = x["id"]
        meta = jobs.P[i][0]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "technique": TECH,
                       "level": "model_checking",
                       "level_note": (COMMON + " Bounds: " + meta["bounds"] + ". Outside: " + meta.get("outside", "-") + ". " + x["note"]).strip()})
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
               "notes": "No hooks in /repo: the harness crates use its public modules. DESIGN.md describes the machinery."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
