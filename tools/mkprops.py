#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties, their anchors and why tests cannot settle them)."""
import json
P=[]
def prop(id,title,statement,over,q,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
S='src/osu_file/'
prop('C01','Reading and writing are total: every input gives a value or an error',
 "Whatever text is given as a .osu file, a .osb file or one of their sections, at every format version from 3 to 14, parsing returns a value, \"not in this version\" or an error that has a location: it never panics, overflows or loops. Everything that was parsed, and everything the public constructors and setters accept, can be written for every version, compared, and queried (BPM, velocity, frame names, ...) without panicking.",
 ['inputs','configurations'],"all texts (well formed, mutated, truncated at any character, arbitrary characters) x the 12 versions x the 10 kinds of text",
 "The tests parse about a hundred hand written snippets and a few maps; the panics that were found (unwraps on ids, loop types, empty sections, digits in trigger names, +-24 at the ends of the number range) all needed inputs outside of them.",
 [S+'mod.rs',S+'events/mod.rs',S+'hitobjects/mod.rs',S+'timingpoints/mod.rs',S+'osb/mod.rs','src/helper/macros.rs','src/parsers.rs'],
 [('context driven conversion of parser errors','src/helper/macros.rs verbose_error_to_error'),('section cutter','src/parsers.rs square_section'),('unwrap()/unreachable!() sites of the section parsers',S)],
 ['OsuFile::from_str','OsuFile::append_osb','VersionedFromStr::from_str of each section','VersionedToString::to_string'])
prop('C02','Writing and reading back is lossless and a fixpoint',
 "For every text that parses, writing the value for a version and reading it back at that version succeeds and gives a value that is written as exactly the same text. When the version can hold every part of the value, the value that is read back is the same value, so no section, field, event, command, point or object is lost, duplicated, reordered or altered by saving and loading. Saving never changes the value itself.",
 ['inputs','configurations','histories'],"all parsed values x all versions written to x repeated save/load/convert histories",
 "The tests round trip each syntax once, almost always at one version; a loss that needs a combination (an absent optional field before a present one, a shorthand that is written with a different arity, an old version) is not sampled.",
 [S+'mod.rs',S+'events/mod.rs',S+'events/storyboard/cmds/mod.rs',S+'hitobjects/mod.rs',S+'timingpoints/mod.rs',S+'colours/mod.rs','src/helper/macros.rs'],
 [('to_string of each type mirrors from_str',S),('section order on output',S+'mod.rs Display for OsuFile')],
 ['Display of OsuFile','VersionedToString::to_string'],[('file','the parsed document',S+'mod.rs OsuFile')])
prop('C03','Errors are located on the line that caused them',
 "The line index of an error is the 0-based line of the whole input text on which the offending field, event, object or header stands, counting blank lines, comments, lines above the version line and all earlier sections, with LF and with CRLF line ends. This holds at every nesting level: for a section parsed alone the index counts from the section's first line.",
 ['inputs'],"all documents with at least one defect, wherever it is, under all layouts of blank lines, indentation and line ends",
 "The tests check about a dozen fixed layouts; line arithmetic is accumulated across separate pieces (leading whitespace, headers, bodies) so a wrong count only shows in particular layouts.",
 [S+'mod.rs',S+'osb/mod.rs',S+'events/mod.rs','src/helper/macros.rs',S+'types.rs'],
 [('line_number accumulation',S+'mod.rs FromStr for OsuFile'),('line_count in key value sections','src/helper/macros.rs general_section_inner'),('Error::processing_line',S+'types.rs')],
 ['Error::line_index','Display of Error'])
prop('C04','Documents are cut into sections exactly as written',
 "A file is a version line (optionally after blank lines and a byte order mark, versions 3 to 14 only) followed by sections in any order; only blank lines and `//` comments may stand above the first section. Each section that the file has is read with exactly the lines between its header and the next header, an empty section is present but empty, a section that is missing is absent, and unknown, repeated or unclosed headers are errors. Files are written with the sections in the fixed order General, Editor, Metadata, Difficulty, Events, TimingPoints, Colours, HitObjects, leaving out absent ones.",
 ['inputs','configurations'],"all sequences of lines: version line variants, comments, blank lines, known/unknown/duplicate/broken headers, any section order and any subset of sections",
 "Tests use files with all sections in the canonical order; subsets, empty sections next to each other, odd orders and broken headers are combinatorial.",
 [S+'mod.rs','src/parsers.rs'],[('square_section parser','src/parsers.rs'),('section dispatch and duplicate check',S+'mod.rs FromStr for OsuFile')],
 ['OsuFile::from_str','fields of OsuFile','Display of OsuFile'],[('section_parsed','names of the sections already read',S+'mod.rs')])
prop('C05','Key-value sections keep every field, exactly once, unaltered',
 "In General, Editor, Metadata and Difficulty every known key may occur once in any order, its value runs from the first colon to the end of the line (so it may itself contain colons), and it is read according to the type of its key; an unknown key, a repeated key, a line without colon or a value of the wrong type is an error. A key that is not given stays absent and is not written. Values that are written parse to the same value, numbers that do not parse as a decimal are kept as their text.",
 ['inputs','configurations'],"all field subsets, orders, values and spacings x all versions",
 "Tests read one complete section per type; they do not read each key alone, with boundary values, with colons inside, repeated or in another version.",
 ['src/helper/macros.rs',S+'general/mod.rs',S+'general/types.rs',S+'editor/mod.rs',S+'metadata/mod.rs',S+'difficulty/mod.rs','src/parsers.rs'],
 [('general_section macro','src/helper/macros.rs'),('get_colon_field_value_lines','src/parsers.rs')],
 ['General/Editor/Metadata/Difficulty::from_str and to_string, their public fields'])
prop('C06','Fields exist exactly in the versions of the format that have them',
 "A field, flag, mode or section that a format version does not have is read as absent (or ignored) and never written for that version, and one that the version has is read and written: this holds independently for reading and for writing, so a value read at one version and written for another contains exactly what the target version has. Storyboard files exist from version 14 on, colours from version 5 on, hit samples from version 10 on in their short form and from version 12 on in full.",
 ['configurations','inputs'],"all 12 versions for reading x all 12 for writing x every gated field",
 "Each gate is a constant in the code and the tests cover a few of the 12x12 combinations of a few fields.",
 [S+'general/mod.rs',S+'general/types.rs',S+'editor/mod.rs',S+'timingpoints/mod.rs',S+'hitobjects/mod.rs',S+'hitobjects/types.rs',S+'colours/mod.rs',S+'events/mod.rs',S+'events/normal_event/mod.rs',S+'events/storyboard/sprites.rs',S+'osb/mod.rs'],
 [('version matches in from_str/to_string/from_repr/default',S)],
 ['VersionedFromStr::from_str','VersionedToString::to_string','VersionedDefault::default'])
prop('C07','Old versions shift times by 24 ms, consistently in both directions',
 "Files of versions 3 and 4 store times 24 ms earlier: when they are read, 24 is added to the times of timing points, hit objects (start, spinner end, hold end), videos, breaks and colour transformations and to no other number, and when such a version is written the same 24 is subtracted. Versions 5 and later are not shifted, so converting between any two versions moves stored times by exactly the difference of their offsets, and times that are not numbers or would leave the number range are kept without failing.",
 ['inputs','configurations'],"all time values (integers, decimals, negatives, range ends, non numbers) x all version pairs x all timed items",
 "Tests have one or two values for version 3/4; the offset sits in a dozen independent places, for each direction.",
 [S+'timingpoints/mod.rs',S+'hitobjects/mod.rs',S+'events/normal_event/mod.rs',S+'types.rs'],
 [('OLD_VERSION_TIME_OFFSET additions and subtractions',S),('Decimal::add_offset',S+'types.rs')],
 ['public time fields','VersionedToString::to_string at versions 3, 4 and 5+'])
prop('C08','Timing points are read field by field and their derived values are exact',
 "A timing point line has time, beat length, meter and, depending on the version, sample set, sample index, volume, inheritance flag and effects; each field is read into its own slot, a missing or malformed one is an error that names it, and writing gives the same fields in the same order with unknown effect bits and sample sets preserved. Effect flags can be set and queried independently of each other and of unknown bits. BPM is given only for points that start a tempo and the slider velocity only for inherited ones, as 60000/beat length and -100/beat length, and neither where it cannot be calculated.",
 ['inputs','configurations'],"all field values and truncations x versions; all 32-bit effect masks by bit class; all beat lengths",
 "Tests read three lines; they do not swap, truncate or bound each field, nor combine flags.",
 [S+'timingpoints/mod.rs',S+'timingpoints/types.rs'],[('TimingPoint from_str/to_string',S+'timingpoints/mod.rs'),('Effects bit masks',S+'timingpoints/types.rs')],
 ['TimingPoint getters','calc_bpm','calc_slider_velocity_multiplier','Effects'],[('effects','bit mask with unknown bits kept',S+'timingpoints/types.rs')])
prop('C09','Hit objects are read by type with every parameter in its place',
 "The type bits of a hit object select circle, slider, spinner or hold and give the new combo flag and the colour skip count (0 to 7); the position, time, hit sound flags, slider curve type, curve points, slide count, length, edge sounds, edge sets, end times and hit sample are each read into their own slot and written back in the same place, with shorthand forms reading as the same object as the full form. A missing or malformed field is an error that names that field. Objects and points keep their order.",
 ['inputs','configurations'],"all type bit combinations, all hit sound masks, all parameter lists and shorthand forms x all versions",
 "Tests cover one line per shape; the optional parts of sliders and samples combine with versions in hundreds of ways.",
 [S+'hitobjects/mod.rs',S+'hitobjects/types.rs','src/parsers.rs'],[('HitObject from_str/to_string',S+'hitobjects/mod.rs'),('HitSample parser',S+'hitobjects/types.rs'),('pipe_vec','src/parsers.rs')],
 ['HitObject public fields','VersionedToString::to_string'])
prop('C10','Storyboard commands attach to their object and loop by indentation',
 "A command line belongs to the most recent event when it is indented once, and to the most recent loop or trigger of the level above when it is indented deeper, by spaces or underscores; the tree that is built this way has every command exactly once, in the order of the lines, at the depth of its indentation. A command without an event, with an indentation that has no loop or trigger above it, is an error and changes nothing. Writing indents each command by its depth, so the tree is read back unchanged.",
 ['histories','inputs'],"all sequences of event, loop, trigger and command lines with all indentations, to any depth",
 "Tests have a handful of fixed trees; the property is about all histories of indentation, where the insertion point depends on everything read before.",
 [S+'events/mod.rs',S+'events/storyboard/cmds/mod.rs'],[('EventWithCommands::try_push_cmd',S+'events/mod.rs'),('indented printing',S+'events/mod.rs commands_to_string')],
 ['Events value','EventWithCommands::commands','Events::to_string'],[('commands','command tree of an event',S+'events/mod.rs')])
prop('C11','Each storyboard command is read and written with all its values',
 "Each command kind (F, M, MX, MY, S, V, R, C, P, L, T) has its own list of fields: easing, start and end time that may be left out, and one or more values or groups of values; each is kept in its own slot and order, an end time or a trailing value that is left out stays left out, and writing gives back the same command. Trigger conditions and parameter letters are read by name, with each optional part independent. A missing or malformed field, or an unknown command, is an error that names it.",
 ['inputs'],"all commands x all presence/absence combinations of optional fields x all value list lengths x field defects",
 "Tests have one or two lines per command; combinations of absent times with list lengths, and malformed fields at each position, are not covered.",
 [S+'events/storyboard/cmds/mod.rs',S+'events/storyboard/cmds/types.rs',S+'events/storyboard/types.rs'],[('Command from_str/to_string_variables',S+'events/storyboard/cmds/mod.rs'),('TriggerType',S+'events/storyboard/types.rs')],
 ['Command fields','to_string'])
prop('C12','Storyboard variables are substituted on reading and restored on writing',
 "In a .osb file each `$name=value` is replaced in the commands that use it, longest match included, and the commands mean what they would mean with the value written out; on writing, the variables come first and commands refer to them again only where that reads back as the same command. Appending a .osb to a file replaces the previous storyboard as a whole, and when the .osb has an error (repeated or unknown section, variable without `$` or `=`, bad event) the file keeps what it had. Storyboards are written only for versions that have them.",
 ['inputs','histories'],"all variable sets (prefixes of each other, equal values, empty, containing commas) x commands x histories of append/write/version change",
 "Tests use a few fixed variables; the interesting cases are interactions of overlapping names and values.",
 [S+'osb/mod.rs',S+'osb/types.rs',S+'events/mod.rs',S+'events/storyboard/cmds/mod.rs',S+'mod.rs'],[('variable substitution',S+'events/mod.rs from_str_variables'),('variable restoration',S+'events/storyboard/cmds/mod.rs to_string_variables'),('append_osb',S+'mod.rs')],
 ['OsuFile::append_osb','OsuFile::osb_to_string','Osb'],[('osb','the appended storyboard',S+'mod.rs OsuFile')])
prop('C13','Value types keep their invariants under every sequence of edits',
 "Constructors and setters of bounded or structured values (volumes 1-100 or 0-100, combo skip count 0-7, continuing value lists where only the last group may be shortened, colour groups, hit sounds, effects, animation frames) accept exactly the allowed values, and a rejected edit reports why and leaves the value unchanged. Appending to a shortened group first completes it with the values it stands for, so the meaning of earlier groups never changes. After any sequence of accepted edits the value is written as text that reads back as the same value.",
 ['histories'],"all sequences of constructor and setter calls with valid and invalid arguments",
 "Tests call a setter once or not at all; the invariants are about histories of edits.",
 [S+'events/storyboard/cmds/types.rs',S+'hitobjects/types.rs',S+'timingpoints/types.rs',S+'events/audio_sample/mod.rs',S+'events/storyboard/sprites.rs'],
 [('ContinuingFields push/set',S+'events/storyboard/cmds/types.rs'),('Volume::new/set_volume',S+'hitobjects/types.rs'),('ComboSkipCount',S+'hitobjects/types.rs'),('frame_file_names',S+'events/storyboard/sprites.rs')],
 ['public constructors, setters and getters'],[('continuing','groups after the first',S+'events/storyboard/cmds/types.rs')])
prop('C14','Names and numbers of enumerated values correspond one to one',
 "Every enumerated value (countdown, mode, sample set, overlay position, layer, origin, easing, loop type, curve type, parameter, trigger sample and addition, legacy codes) has one code in the format, the one that the format documents; reading the code gives the value and writing the value gives the code, no two values share a code, and codes outside of the list are an error or, where the type has a catch-all, are kept as they are. Defaults of each version are members that the version has.",
 ['inputs','configurations'],"every variant, every code in and around the range, all versions",
 "Tests sample single codes; a swapped pair of variants is invisible to a round trip and to tests that do not use that pair.",
 [S+'general/types.rs',S+'events/storyboard/types.rs',S+'events/storyboard/sprites.rs',S+'events/normal_event/types.rs',S+'events/audio_sample/mod.rs',S+'hitobjects/types.rs',S+'timingpoints/types.rs'],
 [('match tables',S+'events/storyboard/types.rs and siblings')],['VersionedFrom/VersionedTryFrom/VersionedFromRepr/VersionedFromStr/VersionedToString of the enums'])
prop('C15','Every event line becomes the event it names, with its own fields',
 "Each line of the events section is a comment, a known event in one of its spellings (background, video, break, colour transformation, sprite, animation, sample: by name and, where the version allows it, by number) or an error; its fields are read in order into their own slots, optional trailing fields may be left out together, and quoted file names keep their quotes. Writing gives the same line in the canonical spelling of the same event. Events keep their order, and comments are kept.",
 ['inputs','configurations'],"all event kinds and spellings x field presence x values x versions",
 "Tests have one or two lines per event; most spellings at most versions are never read.",
 [S+'events/mod.rs',S+'events/normal_event/mod.rs',S+'events/normal_event/types.rs',S+'events/audio_sample/mod.rs',S+'events/storyboard/sprites.rs'],
 [('event dispatch',S+'events/mod.rs from_str_variables'),('field parsers',S+'events/normal_event/mod.rs')],['Events value and to_string'])
prop('C16','File comparison ignores layout and nothing else',
 "Two texts compare equal exactly when they have the same version line, the same sections in the same order and the same lines in each section, ignoring blank lines, byte order marks, white space around lines and, in lines with a colon, anywhere before the first colon and directly after it, anything else above the first section, and the order of the lines of a section in which every line has a colon. The comparison is reflexive, symmetric and transitive, and trimming a trimmed text changes nothing. Any other difference in a value, a name or a line makes texts unequal.",
 ['inputs'],"all pairs of texts over the alphabet of header, key-value, plain, blank and comment lines",
 "The comparison is the oracle of the repository's own tests: what it wrongly ignores, no test can see.",
 ['src/lib.rs'],[('osu_str_trimmer','src/lib.rs')],['osu_str_trimmer','osu_str_eq','assert_eq_osu_str'])
prop('C17','Errors say what is wrong and where, through every conversion',
 "The message of an error names the field or rule that the offending line breaks, and it is the same whether the line is parsed alone, in its section or in a whole file. Wrapping, converting and relocating an error keeps its cause and adds exactly the given number of lines; it is shown as `Line N, message` and, together with the input, as `Line N: text of that line, message`, with N counted from 1. Values that are not errors pass through these conversions unchanged.",
 ['inputs','histories'],"all defects of all fields; all chains of wrapping and relocating",
 "Tests match a few error variants; texts of errors, and the composition of conversions, are not compared.",
 [S+'types.rs',S+'hitobjects/error.rs',S+'timingpoints/error.rs',S+'events/error.rs',S+'events/storyboard/error.rs',S+'general/error.rs','src/helper/macros.rs'],
 [('Error<E> helpers',S+'types.rs'),('context strings','src/helper/macros.rs verbose_error_to_error')],['Display of Error','display_error_with_line','Error::error'])
prop('C18','Colour lines are read and written with their exact components',
 "A colour line is a combo colour with its number, the slider track override or the slider border, followed by three components of 0 to 255 each; the kind, the number and the red, green and blue component are read into their own slots with spaces around the colon and the commas ignored, and written in the same order and order of lines. Anything else (missing or extra component, value above 255, unknown name, missing number) is an error. Versions before 5 have no colours, neither read nor written.",
 ['inputs','configurations'],"all three kinds x all component values x spacing x field defects x versions",
 "Tests read one combo list; component mixups on other kinds, range ends and malformed lines are not covered.",
 [S+'colours/mod.rs',S+'colours/types.rs',S+'colours/error.rs'],[('Colour from_str/to_string',S+'colours/mod.rs'),('Rgb',S+'colours/types.rs')],['Colours value and to_string'])
prop('C19','File names survive with their quotes and spaces',
 "File names in events, samples and objects are kept character for character, including quotes that the file has; on writing, quotes are added exactly when the name has a space and is not already quoted, so the written name is read back as one field with the same name. Setting a path replaces it completely. A sprite can only be created from a relative path, and the frames of an animation are named by inserting the frame number before the extension, in order, one per frame.",
 ['inputs'],"all names: with spaces, quotes at either end, empty, dots, non-ASCII; all frame counts",
 "Tests use plain quoted names.",
 [S+'types.rs',S+'events/normal_event/mod.rs',S+'events/audio_sample/mod.rs',S+'events/storyboard/sprites.rs'],[('FilePath::to_string',S+'types.rs'),('Sprite::new, Animation::frame_file_names',S+'events/storyboard/sprites.rs')],['FilePath','Events::to_string'])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
for p in P: assert len(p['title'])<=80,p['title']
