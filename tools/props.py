#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script only because hand-editing JSON lines is error prone).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Loading does not depend on how the stream delivers the bytes",
 "Parsing a font file or an edition data file gives the same outcome (same font or builder contents, or the same refusal) no matter how the reader splits the same bytes into chunks: one byte at a time, arbitrary chunk sizes, empty reads without error, data delivered together with EOF, or a reader shared with other readers on other threads.",
 ["inputs", "schedules"], "for all valid font and edition files, and all legal io.Reader delivery schedules of their bytes",
 "Existing tests only parse from a bytes.Buffer, which always delivers everything at once.",
 ["parse.go", "internal/parsing_buffer.go", "builder/font_builder.go"],
 [("Parse / ParseEditionData", "parse.go, builder/font_builder.go"), ("ParsingBuffer refilling", "internal/parsing_buffer.go")],
 observe=["ggfnt.Parse", "builder.Font.ParseEditionData"])
prop("C02", "Read failures and truncation are always reported",
 "If the reader fails at any point before the font file (or edition data file) was fully delivered and verified, or the stream ends early at any byte, parsing returns an error in bounded time; it never returns success and never panics or hangs. An error returned in the same call as data, or in place of EOF, counts too.",
 ["fault_sequences", "crash_points", "inputs"], "for all font and edition files, every byte offset, and every kind of reader failure (error alone, error with data, premature EOF, unending empty reads)",
 "Tests never use a failing or truncated reader; the offsets and failure kinds are unbounded.",
 ["parse.go", "internal/parsing_buffer.go", "builder/font_builder.go"],
 [("error propagation of every read helper", "internal/parsing_buffer.go"), ("EnsureEOF", "internal/parsing_buffer.go")],
 observe=["ggfnt.Parse", "builder.Font.ParseEditionData"])
prop("C03", "Damaged font files are refused, never misread",
 "Parsing stored font bytes that were damaged (flipped bits, torn, lost, zeroed, duplicated or misdirected sectors, stale data, trailing garbage) either returns an error or a font identical to the one that was stored. When the damage is inside a correctly checksummed payload, parsing still never panics, hangs or exhausts memory: it returns an error or a font that exports exactly the bytes that were stored, and contents that are cut short or continue beyond their end are always refused.",
 ["fault_sequences", "inputs"], "for all exported fonts and all storage corruptions of their bytes, with and without a recomputed checksum",
 "Tests only parse files they just wrote; the space of corruptions is unbounded.",
 ["parse.go", "internal/parsing_buffer.go", "font.go"],
 [("signature, gzip checksum and trailing data checks", "parse.go, internal/parsing_buffer.go"), ("section bounds checks while parsing", "parse.go")],
 observe=["ggfnt.Parse"])
prop("C04", "Loading is bounded: oversized or endless streams are refused",
 "A stream whose compressed or uncompressed size exceeds the documented 32 MiB font size limit is refused with an error, after consuming a bounded amount of input and memory; this includes streams that never end, decompression bombs, and readers that never make progress. Fonts within the limit are not refused because of their size.",
 ["inputs", "fault_sequences"], "for all streams, including unending and maximally compressible ones, on both the font and edition data loaders",
 "Tests only read tiny files; a limit that is off or skipped on one path is invisible to them.",
 ["internal/parsing_buffer.go", "parse.go", "internal/constants.go"],
 [("size limiting reader", "internal/parsing_buffer.go"), ("uncompressed size check while refilling", "internal/parsing_buffer.go")],
 observe=["ggfnt.Parse", "ggfnt.ParseFromFS", "builder.Font.ParseEditionData"])
prop("C05", "File based loading closes what it opens and reports every failure",
 "Loading a font by filename from any file system closes each file it opened exactly once on every path (success, missing file, stat failure, oversized file, read error at any point, malformed contents) and leaves no open handles behind. It succeeds only if the whole file was read and is valid, returning the same font as parsing its bytes, and otherwise (a failure to close the file included) returns an error.",
 ["fault_sequences", "crash_points"], "for all file contents and all sequences of Open/Stat/Read/Close failures of the file system",
 "Tests do not load files through a file system at all, let alone a faulty one.",
 ["parse.go"], [("ParseFromFS / ParseFromPath", "parse.go")], observe=["ggfnt.ParseFromFS", "ggfnt.ParseFromPath", "fs.File.Close calls"])
prop("C06", "Exporting reports every write failure and is all-or-nothing",
 "Exporting a font (from a parsed font or from a builder) returns success only if the writer accepted every byte of a complete file that parses back to the same font; if the writer fails, runs out of space or accepts fewer bytes than given at any point, an error is returned. A failed or crashed export changes neither the font nor the builder, and a later export to a healthy writer produces a complete valid file.",
 ["fault_sequences", "crash_points", "histories"], "for all fonts and builders, every write call and byte offset at which the writer or the process fails",
 "Tests export to an in-memory buffer that can't fail.",
 ["font.go", "builder/font_builder.go"], [("Export", "font.go, builder/font_builder.go")], observe=["ggfnt.Font.Export", "builder.Font.Export"])
prop("C07", "Glyphs, metrics and header survive export, crash and reload",
 "After any history of builder edits (including rejected ones, version raises at any clock time, and a process crash after which only exported bytes survive), the exported and reloaded font reports exactly the header fields, dates, metrics, glyph count, glyph names, glyph placements and glyph pixels that the accepted edits established, regardless of how the storage delivers the bytes.",
 ["histories", "crash_points", "configurations"], "for all sequences of header, metric and glyph edits, clock values, layouts (mono, vertical) and glyph masks within the documented limits",
 "Tests build one or two fixed fonts and compare a few getters.",
 ["builder/font_builder.go", "builder/font_builder_props.go", "font.go", "parse.go", "mask/encoder.go", "mask/rasterize.go"],
 [("Build", "builder/font_builder.go"), ("Parse", "parse.go"), ("mask encoder / rasterizer", "mask/")],
 observe=["ggfnt.Font.Header/Metrics/Glyphs"])
prop("C08", "Colors and settings survive export, crash and reload",
 "After any history of dye, palette and setting definitions (accepted and rejected), the exported and reloaded font reports exactly the accepted dyes with their alphas, palettes with their colors, and settings with their names and option names, in definition order, with consistent color index assignment between builder and font. Fonts without any color definition get a single opaque main dye.",
 ["histories", "crash_points", "configurations"], "for all sequences of color and setting edits within the documented limits, saved, crashed and reloaded at any point",
 "Tests define at most one dye and a single setting.",
 ["builder/font_builder_color.go", "builder/font_builder_settings.go", "builder/font_builder.go", "font.go"],
 [("color and settings sections", "builder/font_builder.go, parse.go, font.go")], observe=["ggfnt.Font.Color/Settings"])
prop("C09", "Character mapping survives reload and follows settings",
 "After any history of mapping edits, each mapped code point of the exported and reloaded font resolves, for every combination of setting values, to exactly the glyph or glyph group, group order and animation flags that the latest accepted mapping assigned to the matching switch case; unmapped code points resolve to nothing. Direct, ASCII and settings-cache lookups agree with each other.",
 ["histories", "configurations", "crash_points"], "for all sequences of single, group and switch mappings, all settings assignments, and all reload points",
 "Tests map a couple of code points without switches.",
 ["builder/font_builder_mapping.go", "builder/font_builder.go", "font.go"],
 [("switch evaluation and case skipping", "font.go"), ("mapping section", "builder/font_builder.go, parse.go")], observe=["ggfnt.Font.Mapping"])
prop("C10", "Kerning survives reload exactly",
 "After any history of kerning edits (set, overwrite, clear, and pairs loaded from edition data in which vertical and class based values appear), every ordered pair of glyphs of the exported and reloaded font has exactly the horizontal and vertical kerning last established, and zero otherwise; the number of stored pairs matches.",
 ["histories", "crash_points"], "for all histories of horizontal kerning edits and edition data loads, and all glyph pairs",
 "Tests set no kerning with more than a pair or two and never vertical kerning.",
 ["builder/font_builder.go", "font.go"], [("kerning section and binary search", "builder/font_builder.go, font.go")], observe=["ggfnt.Font.Kerning"])
prop("C11", "Rewrite rules, sets and conditions survive reload",
 "After any history of rewrite set and rule edits, the exported and reloaded font contains exactly the accepted rules and sets in order with their lengths, inputs and outputs. Rewrite conditions stored in a font evaluate, for every combination of setting values, to the boolean meaning given by the format specification.",
 ["histories", "configurations", "inputs"], "for all histories of set and rule edits, all well-formed condition expressions and all settings assignments",
 "Tests evaluate no conditions, and only check rule building on one font.",
 ["builder/font_builder_rewrite_rules.go", "builder/font_builder_rewrite_sets.go", "builder/font_builder.go", "font.go"],
 [("rewrites section", "builder/font_builder.go, parse.go"), ("condition evaluation", "font.go")], observe=["ggfnt.Font.Rewrites"])
prop("C12", "Building is deterministic and isolated from the builder",
 "Building or exporting the same builder contents repeatedly gives byte-identical files, independent of in-memory iteration order, of earlier builds and of the process that builds. A built font is a snapshot: later edits to the builder never change it, and building never changes what the builder reports or exports later.",
 ["histories", "schedules", "configurations"], "for all builder histories, all map iteration orders and all interleavings of edits with builds and exports",
 "Go's map order is random and small fixtures rarely expose order dependence or shared memory.",
 ["builder/font_builder.go"], [("Build and its sorting steps", "builder/font_builder.go")], observe=["builder.Font.Build", "builder.Font.Export", "ggfnt.Font.Export"])
prop("C13", "Rejected edits and entropy failures leave the builder unchanged",
 "An edit that returns an error, including one that fails because the entropy source fails or keeps repeating values, leaves everything observable about the builder unchanged, and the builder remains usable. Identifiers handed out for glyphs and sets are never zero-effect duplicates: every identifier refers to exactly the item it was returned for.",
 ["fault_sequences", "histories"], "for all edit histories mixing valid and invalid edits, with the entropy source failing or repeating values at any call",
 "Tests don't make entropy fail and don't compare state after errors.",
 ["builder/font_builder.go", "builder/font_builder_props.go", "builder/font_builder_mapping.go", "builder/font_builder_color.go", "builder/font_builder_settings.go", "builder/font_builder_rewrite_sets.go", "builder/font_builder_rewrite_rules.go", "internal/helpers.go"],
 [("validation before mutation", "builder/*.go"), ("identifier rerolls", "builder/font_builder.go")], observe=["builder.Font getters", "builder.Font.Export"])
prop("C14", "Loading edition data is atomic",
 "Loading edition data into a builder either succeeds and establishes exactly the categories, kerning classes and pairs stored in it, or returns an error and leaves the builder without edition data but otherwise exactly as it was, whatever failure happened (read error at any byte, truncation, corruption, wrong font, invalid reference). Edition data loaded earlier is replaced as a whole, never mixed with the new one. Clearing edition data removes exactly what loading added, and loading can be retried afterwards.",
 ["fault_sequences", "crash_points", "histories"], "for all edition files, all reader failures and corruptions, in any history of loads, failures, clears and retries",
 "Tests never load edition data.",
 ["builder/font_builder.go"], [("ParseEditionData / ClearEditionData", "builder/font_builder.go")], observe=["builder.Font.ParseEditionData", "builder.Font.Export"])
prop("C15", "A font can be read and re-exported from many threads at once",
 "Any number of threads may query and export one loaded font (and its rewrite rules and mappings) concurrently while other threads load, build or export other fonts: each query gives the same answer as if it ran alone, under every interleaving, and the font's exported bytes never change.",
 ["schedules", "inputs"], "for all fonts, all mixes of read-only queries and all interleavings at statement granularity",
 "Existing tests are single threaded.",
 ["font.go", "parse.go", "internal/parsing_buffer.go", "mask/rasterize.go"],
 [("absence of shared mutable state in readers", "font.go, parse.go, mask/")], observe=["all ggfnt.Font accessors"])
prop("C16", "Rewriting gives exactly the output defined by the rules",
 "For every rule set the tester accepts, feeding any sequence (one element at a time, with breaks and condition refreshes at any point) outputs exactly what the rewrite rules prescribe: leftmost first, only rules with satisfied conditions, longest match within a condition (lowest rule index among equally long ones), lowest rule index across conditions, head and tail as context, output not rescanned. Setting changes in the middle of a sequence have no effect until conditions are refreshed. No element is lost, duplicated or reordered, control and invalid inputs are refused without effect, and nothing remains pending after finishing.",
 ["inputs", "histories", "configurations"], "for all accepted rule sets (ranges, lists, sets, heads, tails, conditions), all inputs and all histories of feeds, breaks and refreshes",
 "Tests try about a dozen fixed rule sets with fixed inputs.",
 ["rerules/glyph_tester.go", "rerules/utf8_tester.go", "internal/rerules/glyphrule/tester.go", "internal/rerules/utf8rule/tester.go"],
 [("decision tree compilation and matching", "internal/rerules/glyphrule, internal/rerules/utf8rule")],
 observe=["rerules.GlyphTester", "rerules.Utf8Tester"])
prop("C17", "Testers on different threads never influence each other",
 "Rewrite testers used by different threads, each with its own rules and font, produce the same outputs and errors as when run alone, under every interleaving of their operations, even though they share internal compilation resources.",
 ["schedules"], "for all interleavings (statement granularity) of adding rules, beginning sequences, feeding, breaking and finishing on independent testers",
 "Existing tests are single threaded; the race detector only sees the schedules that happen.",
 ["internal/single_instance_pool.go", "internal/rerules/glyphrule/tester.go", "internal/rerules/utf8rule/tester.go"],
 [("shared compiler pool", "internal/single_instance_pool.go")], observe=["rerules.GlyphTester", "rerules.Utf8Tester"])
prop("C18", "A tester recovers fully from failures",
 "A failed operation on a rewrite tester (rule set beyond the compiler limits, malformed rule, too many rules, invalid input, interrupted callback) is reported and leaves that tester and all others in a consistent state: the sequence is not considered started if starting failed, removing the offending rule makes it usable again, a sequence interrupted by a panicking callback can still be fed, broken and finished, and the results of later sequences equal those of a tester that never saw the failure.",
 ["fault_sequences", "histories"], "for all histories in which adding, compiling, feeding or user callbacks fail at any point, followed by continued use",
 "Tests never continue after a failure.",
 ["internal/rerules/glyphrule/tester.go", "internal/rerules/utf8rule/tester.go", "internal/rerules/glyphrule/decision_tree_compiler.go", "internal/rerules/utf8rule/decision_tree_compiler.go"],
 [("compiler cancellation", "internal/rerules/*/decision_tree_compiler.go"), ("operating flag", "internal/rerules/*/tester.go")], observe=["rerules.GlyphTester", "rerules.Utf8Tester"])
prop("C19", "Setting and rule changes take effect when conditions are refreshed",
 "After any history of setting changes and rule additions and removals, a tester that refreshed its conditions after the last setting change and then begins a sequence behaves exactly like a freshly created tester with the same rules in the same order and the same settings; rule changes need nothing but beginning the next sequence. The reported number of rules always matches.",
 ["histories", "configurations"], "for all histories of rule additions, removals, setting changes, sequences and refreshes on one tester",
 "Tests never change settings nor remove rules after use.",
 ["rerules/glyph_tester.go", "rerules/utf8_tester.go", "internal/rerules/glyphrule/tester.go", "internal/rerules/utf8rule/tester.go", "settings_cache.go"],
 [("condition refresh and decision tree recompilation", "internal/rerules/*/tester.go")], observe=["rerules.GlyphTester", "rerules.Utf8Tester"])
prop("C20", "Caches are transparent",
 "Looking up a code point through a mapping cache or a settings cache always gives the same result as the uncached lookup with the current settings, for every cache size and history of lookups, setting changes, drops and resets, provided mappings are dropped when changing a setting reports that they are affected. A setting change that alters any mapping or rewrite condition result is always reported as affecting it.",
 ["histories", "configurations"], "for all fonts, cache sizes, and histories of lookups, setting changes, drops and resets (including resets to a different font)",
 "Caches have no tests at all.",
 ["mapping_cache.go", "settings_cache.go", "font.go"],
 [("mapping cache eviction list", "mapping_cache.go"), ("settings cache invalidation", "settings_cache.go")],
 observe=["ggfnt.MappingCache", "ggfnt.SettingsCache"])
prop("C21", "Glyph masks survive encoding, storage and rasterization",
 "Whatever masks an encoder was used for before, and whatever other threads encode or rasterize meanwhile, encoding an alpha mask (of any size, position, stride and contents) appends operations to the given data, without modifying the mask or the earlier data, that rasterize to exactly the mask's pixels within its tight bounds (nothing for an empty mask). Valid operations written by any other producer give the mask that the specification defines; operations that were cut or damaged in storage give a mask or an error, never a panic or a hang, and without consequences for later uses.",
 ["histories", "schedules", "fault_sequences", "inputs"], "for all histories of masks encoded with reused encoders, on any threads, and all damage of the stored operations",
 "Tests encode a few fixed masks, each with a new encoder, and never read damaged operations.",
 ["mask/encoder.go", "mask/encoder_helper_funcs.go", "mask/raster_fragment.go", "mask/rasterize.go", "mask/compute_rect.go"],
 [("mask encoder", "mask/encoder.go"), ("rasterizer", "mask/rasterize.go")],
 observe=["mask.Encoder.AppendRasterOps", "mask.Rasterize", "mask.ComputeRect"])
prop("C22", "Dates and predefined words follow the specification",
 "Date validity, completeness and formatting, and the table of predefined setting words, follow the format specification for all values.",
 ["inputs"], "for all dates and word indices", "One test samples a few dates.", ["date.go", "words.go"], [("Date.IsValid", "date.go"), ("GetPredefinedWord", "words.go")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
