import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=(),hook=None):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"observe_at":list(obs),"hook_needed":hook}})
U="libs/utils/"; QZ="libs/quiz/"
p("C01","UTF-8 decoding is correct and total for every byte sequence",
  "Decoding any text (a pointer, null included, or a string) as UTF-8 yields exactly the code points of its well-formed sequences, with one replacement character U+FFFD for each malformed unit (stray continuation byte, over-long lead byte, missing continuation byte, overlong form, surrogate, value beyond U+10FFFF), and stops at the first NUL or after the requested maximum number of characters. Asking for the first code point gives the first element of that decoding, and 0 for empty or null text. Decoding never reads past the terminating NUL and always terminates.",
  ["inputs"],"every byte string of every length, null pointers, and every maximum size","tests decode a few dozen fixed strings; the multi-byte state machine has ~2^32 four-byte windows at every offset of texts of unbounded length.",
  [U+"src/Utf8.cpp",U+"include/kt_utils/Utf8.h"],[("byte-class tests, continuation checks and range checks of the decoder loop",U+"src/Utf8.cpp convertFromUtf8"),("first code",U+"src/Utf8.cpp getCode")],obs=["fromUtf8","fromUtf8ToWstring","getCode"])
p("C02","UTF-8 encoding is correct for every code point and inverse to decoding",
  "Encoding a code point (given as a character, a signed or an unsigned integer) or a text of code points produces exactly the shortest-form UTF-8 bytes of each code, in order, and the bytes of U+FFFD for every value that is a surrogate or lies beyond U+10FFFF. Decoding the encoding of any scalar value gives that value back.",
  ["inputs"],"all 2^32 code values and all code sequences of every length","tests encode a few code points and one text; boundaries between 1/2/3/4-byte forms and the surrogate range are sampled only.",
  [U+"src/Utf8.cpp"],[("shift/mask encoder",U+"src/Utf8.cpp convertToUtf8 / R / toUtf8")],obs=["toUtf8"])
p("C03","UTF-8 validation accepts exactly valid multi-byte characters",
  "Validation of a text classifies its first character as valid, as not multi-byte, or as invalid with the right reason (continuation byte first, missing bytes, lead byte too long, overlong, invalid code point, or more text after the character when exactly one is demanded). It reports a reason exactly when it reports invalid, and it accepts exactly the characters that decode without replacement and re-encode to the same bytes.",
  ["inputs"],"every byte string (and null) with and without the one-character-only restriction","tests try fixed byte patterns; agreement between validator, decoder and encoder has to hold for every four-byte window.",
  [U+"src/Utf8.cpp",U+"include/kt_utils/Utf8.h"],[("validation ladder",U+"src/Utf8.cpp validateMBUtf8"),("wrappers",U+"include/kt_utils/Utf8.h isValidUtf8/isValidMBUtf8")],obs=["validateMBUtf8","isValidUtf8","isValidMBUtf8"])
p("C04","Character categories follow the Unicode blocks for every text",
  "A text is recognised as Hiragana, Katakana, Kana, common Kanji, rare Kanji, Kanji, symbol, letter, punctuation or recognised character exactly when its first character lies in the Unicode blocks of that category; when one character is demanded the text must hold at most that character and one non-spacing mark (a voiced-sound mark or variation selector) within eight bytes. The 'all' forms hold exactly when every character is in the category or is a single non-spacing mark directly after such a character (so they hold for empty text), and the wide space counts as punctuation only where asked for.",
  ["inputs"],"every byte string, every code point, both settings of every flag","there are over a million code points per category and two edges per block; tests sample a handful, and a shifted edge or wrong table passes them.",
  [U+"src/UnicodeBlock.cpp",U+"include/kt_utils/UnicodeBlock.h"],[("block tables",U+"include/kt_utils/UnicodeBlock.h *Blocks"),("first / whole text tests",U+"include/kt_utils/UnicodeBlock.h inWCharRange"),("category functions",U+"src/UnicodeBlock.cpp is*/isAll*")],obs=["isKana","isAllKana","isKanji","isRecognizedUtf8"])
KA="libs/kana/"
p("C05","Display width counts columns correctly for every text",
  "The display width of a text is the sum over its code points of 0 for NUL and non-spacing marks, 2 for East Asian wide or fullwidth characters, and 1 for anything else; null text has width 0 and UTF-8 text is measured on its decoding up to the first NUL. The padding value computed for a column width is that width plus the number of bytes minus the display width.",
  ["inputs"],"every code point, every text of every length, every requested width","121 wide ranges over a million code points; a wrong edge or a mis-summed combination only shows on specific characters.",
  [KA+"src/DisplaySize.cpp",KA+"include/kt_kana/DisplaySize.h"],[("width table",KA+"include/kt_kana/DisplaySize.h WideBlocks"),("summation",KA+"src/DisplaySize.cpp displaySize"),("padding",KA+"src/DisplaySize.cpp wideSetw")],obs=["displaySize","wideSetw"])
p("C06","Numbers and code points are formatted exactly",
  "Binary and hexadecimal formatting of any unsigned value gives exactly its digits in the requested case, prepended with zeroes up to the requested minimum size (by default the full width of the type, always at least one digit) and surrounded by the requested brackets. Unicode formatting gives upper-case hexadecimal with at least four digits per code point, single-space separated for texts, with one pair of brackets around the whole.",
  ["inputs"],"all values of every unsigned width, all bracket and case choices, all minimum sizes, all texts","digit loops, padding and boundary digits have 2^64 inputs per type; tests use a few literals.",
  [U+"src/String.cpp",U+"include/kt_utils/String.h"],[("digit loops",U+"include/kt_utils/String.h toHex/toBinary"),("padding and brackets",U+"src/String.cpp addLeadingZeroes/addBrackets"),("Unicode form",U+"src/String.cpp toUnicode")],obs=["toHex","toBinary","toUnicode","addBrackets","addLeadingZeroes"])
p("C07","Narrowing, single-byte tests and case conversion are safe and exact",
  "Converting an integer to a character keeps its low eight bits when it is in the allowed range and raises a range error otherwise, for every integer type. Single-byte tests hold exactly when the first (or every, or some) character is below 128, and case conversion changes exactly the ASCII letters it should, in the first position or everywhere, leaving every other byte and the length unchanged.",
  ["inputs"],"all integers of every width and all byte strings and code sequences of every length","a silently truncated or sign-extended value only shows at particular magnitudes; quantified text predicates depend on every position.",
  [U+"src/String.cpp",U+"include/kt_utils/String.h"],[("range checks",U+"src/String.cpp toChar/toCharUnsigned"),("text predicates",U+"src/String.cpp isSingleByte/isAllSingleByte/isAnySingleByte"),("case conversion",U+"src/String.cpp firstLower/firstUpper/toLower/toUpper")],obs=["toChar","toUChar","isSingleByte","isAllSingleByte","firstLower","toLower"])
p("C08","Enum containers reject every index outside their range",
  "Every way of reaching a value of an enum list or enum map (by index of any integer type, by enum value, or through an iterator moved in any way) yields the value at exactly the requested position and raises a range error, changing nothing, when that position lies outside the container; iterators of different maps can not be compared and an unset map iterator can not be read (domain error). Names and values of the project's enums map to each other one to one: the name of a value is the one it was listed with, converting a name gives back its value, and anything else raises a domain error except the empty or 'None' text where that is allowed.",
  ["inputs"],"every value of every integer type as index, every enum byte, every iterator position and distance, every byte string as name","an index cast to a byte or a distance that overflows only shows at values far outside the handful a test uses; 2^64 distances and all byte strings matter.",
  [U+"include/kt_utils/EnumContainer.h",U+"include/kt_utils/EnumList.h",U+"include/kt_utils/EnumMap.h",U+"src/EnumContainer.cpp"],[("index check",U+"include/kt_utils/EnumContainer.h checkIndex"),("iterator moves",U+"include/kt_utils/EnumContainer.h Iterator"),("name map",U+"include/kt_utils/EnumList.h fromString/toString"),("map access",U+"include/kt_utils/EnumMap.h operator[]")],obs=["EnumList","EnumMap","toString","fromString"])
KJ="libs/kanji/"
p("C09","Bit flag operators act on exactly the given bits",
  "Combining two sets of flags by and, or, exclusive or (plain or assigning) or complementing one gives exactly the flags that the same operation on their bits gives, for flag types of every width; a set has a value exactly when some bit is set, and 'not' is the opposite. The assigning forms change only their left side and return it.",
  ["inputs"],"all values of flag types of 8, 16, 32 and 64 bits, including every combination of undefined bits","a widened, narrowed or sign-extended intermediate only shows on high bits; tests combine a few small values.",
  [U+"include/kt_utils/Bitmask.h",U+"include/kt_utils/TypeTraits.h"],[("operators",U+"include/kt_utils/Bitmask.h")],obs=["operator&","operator|","operator^","operator~","hasValue"])
p("C10","Command-line arguments are checked before any is read",
  "An argument list holds exactly the given number of arguments, gives the argument stored at a position below that number and raises a range error for any other position. It can not be made from a count that is negative or too large for the list (range error), nor from a count of zero with a list or a positive count without one (domain error).",
  ["inputs"],"all counts of both integer types, all positions, with and without a list","a count cut to 16 bits or an off-by-one position check reads outside the list only for values tests do not use.",
  [U+"src/Args.cpp",U+"include/kt_utils/Args.h"],[("construction checks",U+"src/Args.cpp Args / checkInt"),("position check",U+"src/Args.cpp operator[]")],obs=["Args","Args::operator[]","Args::size"])
p("C11","Block ranges list every block's first and last character",
  "The range text made from Unicode blocks is, for each block in order, its first character, a dash and its last character, followed by a terminating NUL; a position up to and including the terminator gives that character and any other position raises a range error. The predefined Kanji, Kana, Hiragana, Katakana and wide letter ranges cover exactly their blocks, and a block contains exactly the codes from its first to its last.",
  ["inputs"],"all block bounds, all codes, all 2^64 positions","the range texts are spliced into regular expressions, so one wrong edge silently drops or admits characters no test tries.",
  [U+"include/kt_utils/BlockRange.h",U+"src/BlockRange.cpp",U+"include/kt_utils/UnicodeBlock.h"],[("fill",U+"include/kt_utils/BlockRange.h fill"),("position check",U+"src/BlockRange.cpp checkIndex"),("containment",U+"include/kt_utils/UnicodeBlock.h operator()")],obs=["BlockRange::operator[]","BlockRange::operator()","UnicodeBlock::operator()"])
p("C13","Stroke counts are always in range and ordered",
  "A stroke count holds exactly the given count (1 to 64) or the given count and variant (2 to 64, and 3 to 33, different from each other); anything else raises a range error, or a domain error when count and variant are equal. Stroke counts compare by count and then by variant (none first), and their text is the count, with '/' and the variant when there is one and it is asked for.",
  ["inputs"],"all pairs of counts and variants, and all pairs of stroke counts","all 65536 pairs and their orderings are decided at once; tests use a dozen.",
  [KJ+"src/Strokes.cpp",KJ+"include/kt_kanji/Strokes.h"],[("construction checks",KJ+"src/Strokes.cpp Strokes"),("ordering",KJ+"include/kt_kanji/Strokes.h operator<=>"),("text",KJ+"src/Strokes.cpp toString")],obs=["Strokes","Strokes::toString"])
p("C14","Morohashi IDs are parsed exactly",
  "A text is accepted as a Morohashi ID exactly when it is empty or a decimal number of at most 65535 (leading zeroes allowed) with at most one of: the prefix 'H', the suffix P or ', or the suffix PP or ''; these give the supplemental, prime and double prime kinds, which may not be zero, and everything else raises a domain error. IDs compare by number and then by kind, count as set exactly when the number is not zero, and print as the number with their prefix or suffix.",
  ["inputs"],"all texts of every length and all pairs of IDs","overflow at 65535 and the interplay of prefix, suffix, leading zeroes and length need inputs beyond the sampled ones.",
  [KJ+"src/MorohashiId.cpp",KJ+"include/kt_kanji/MorohashiId.h"],[("digit loop",KJ+"src/MorohashiId.cpp validate"),("kind",KJ+"src/MorohashiId.cpp getIdType/getId"),("text",KJ+"src/MorohashiId.cpp toString")],obs=["MorohashiId","MorohashiId::toString"])
p("C16","Characters with marks and variation selectors are read as one character",
  "Reading a text character by character yields each well-formed multi-byte character exactly once and in order, with a following variation selector kept on it, a following voiced or semi-voiced mark combined into the accented kana where one exists (a mark that stands alone is skipped), single bytes skipped when only multi-byte characters are asked for, and every malformed byte skipped, counting each of these; looking ahead changes nothing, and starting over gives the same characters again. A text is taken for a character with a selector exactly when it is one well-formed multi-byte character and one selector, only then is the selector removed, and the size of a text is the number of characters it holds. The voiced and semi-voiced forms of a kana text are exactly the standard ones.",
  ["inputs","histories"],"every byte string of every length, every sequence of next, peek and reset calls, both settings of the multi-byte-only flag","malformed bytes, marks and selectors can meet in any order at any offset; a wrong cursor step or counter shows only in particular mixtures.",
  [KA+"src/Utf8Char.cpp",KA+"include/kt_kana/Utf8Char.h",KA+"src/Kana.cpp"],[("next / peek cursor",KA+"src/Utf8Char.cpp doPeek/next/peek"),("selector tests",KA+"src/Utf8Char.cpp isCharWithVariationSelector/noVariationSelector"),("voiced forms",KA+"src/Kana.cpp findDakuten/findHanDakuten")],
  state=[("cursor, error and mark counters","position in the text and what was skipped or combined so far",KA+"include/kt_kana/Utf8Char.h")],obs=["Utf8Char::next","Utf8Char::peek","Utf8Char::size","isCharWithVariationSelector","noVariationSelector"])
p("C17","Every kana has its standard texts, readings and voiced forms",
  "The Hiragana, Katakana and Romaji tables hold exactly the standard kana (including the typeable combinations), each under its one text or any of its spellings. Every kana gives its Hiragana, Katakana and, for every combination of flags, the reading of the chosen system (Hepburn before Kunrei before the unique one), its reading with the first consonant doubled, its voiced, semi-voiced and plain counterpart, and whether it is small, single or combined. An iteration mark is recognised for exactly its type and repeats the kana before it, plain or voiced.",
  ["inputs"],"all 204 kana, all 256 flag values, all types, all texts looked up","thousands of combinations of kana, flag and type; tests sample some, and one wrong entry or wrong precedence of flags passes them.",
  [KA+"src/Kana.cpp",KA+"include/kt_kana/Kana.h"],[("entries",KA+"src/Kana.cpp KanaList/DakutenKanaList/HanDakutenKanaList"),("tables",KA+"src/Kana.cpp populate"),("choice of reading",KA+"src/Kana.cpp getRomaji/getSokuonRomaji"),("iteration marks",KA+"src/Kana.cpp IterationMark::get/findIterationMark")],obs=["Kana::getMap","Kana::get","Kana::getRomaji","Kana::IterationMark::get"])
p("C18","Whole-text conversion converts every kana once, in order",
  "Converting Hiragana to Katakana (or back) replaces every kana and iteration mark by its counterpart and keeps every other character, prolong marks included, in its place. Converting a whole text applies the conversions from Hiragana, from Katakana and from Romaji in this order, leaving out the one from the target's own type (which changes nothing), and a call that names target and flags sets them before it converts. The flags print as the names of those that are set, in a fixed order and separated by '|', or as 'None'.",
  ["inputs"],"texts of every length mixing kana, marks, other characters and malformed bytes; every source, target and combination of flags","how kana are grouped depends on the kana before and after; a group that is lost, doubled or reordered shows only for particular neighbours.",
  [KA+"src/Converter.cpp",KA+"include/kt_kana/Converter.h"],[("grouping of kana",KA+"src/Converter.cpp fromKana/processOneKana/processKana"),("order of conversions",KA+"src/Converter.cpp convert"),("flag text",KA+"src/Converter.cpp flagString")],
  state=[("target and flags","what later calls convert to",KA+"include/kt_kana/Converter.h")],obs=["Converter::convert","Converter::flagString"])
p("C19","Kana converts to Romaji group by group",
  "Kana converts to Romaji in groups (a kana with the small kana after it when they combine, either one with a small tsu before it): a group gives the reading the flags choose, its first consonant doubled for the small tsu where it is a consonant that can double ('t' before 'ch'), and the kana of a group that do not combine are converted one by one in order. A prolong mark puts a macron on the vowel directly before it (or stays where there is none), an iteration mark repeats the kana directly before it, plain or voiced, and nothing where there is none, and an n before a vowel or y kana gets an apostrophe. Wide delimiters become narrow ones and every other character stays unchanged in its place.",
  ["inputs"],"texts of every length mixing kana, marks, other characters and malformed bytes; both syllabaries, every combination of flags","the output of a kana depends on up to three kana before it and the one after it; tests try some words.",
  [KA+"src/Converter.cpp",KA+"include/kt_kana/Converter.h"],[("grouping of kana",KA+"src/Converter.cpp fromKana/processOneKana"),("split of unknown groups",KA+"src/Converter.cpp processKana"),("macron and repeated kana",KA+"src/Converter.cpp processKanaMacron")],obs=["Converter::convert"])
p("C20","Romaji converts to kana from left to right without losing letters",
  "Romaji text is cut at every delimiter and each word is converted from left to right, ignoring case: the first letters that spell a kana become it, a repeated consonant that can double (or t before c) becomes a small tsu, an n that starts no kana becomes the n kana, and a vowel with a macron becomes that vowel with a prolong mark (or with a second vowel for Hiragana when the flag asks for it). Letters that fit no kana stay unchanged where they stand, and so does every other multi-byte character. Delimiters become their wide forms, but apostrophes and dashes are dropped, and so are spaces when the flag asks for it.",
  ["inputs"],"texts of every length, well formed or not, in any mix of cases; both syllabaries, every combination of flags","letters wait for others that complete them, so a wrong state after an unusual sequence (n, capitals, partial letters before symbols or macrons) escapes sampled words.",
  [KA+"src/Converter.cpp",KA+"include/kt_kana/Converter.h"],[("delimiters",KA+"src/Converter.cpp convert"),("letters",KA+"src/Converter.cpp toKana/processRomaji"),("macrons",KA+"src/Converter.cpp processRomajiMacron")],obs=["Converter::convert"])
p("C21","Kanji and kanji counts have one strict order",
  "Kanji sort by strokes, then frequency (those without one last), then the hexadecimal text of their Unicode number; and by qualified name, that is by the place of their suffix in the legend, then the same way. Kanji counts sort by higher count, then frequency (no frequency, then unknown kanji last), then type, then name; radicals by number. Each order is strict and transitive, so only entries equal in all of this share a place, and the suffix after a kanji's name is the one for its group.",
  ["inputs"],"every pair (and triple) of kanji of any type with any combination of attributes, every pair of counts, known and unknown","sorted sets silently drop or misplace entries when the order is inconsistent for a rare tie; tests compare a few kanji.",
  [KJ+"src/Kanji.cpp","libs/stats/src/Stats.cpp",KJ+"src/Radical.cpp"],[("order by strokes and by qualified name",KJ+"src/Kanji.cpp orderByStrokes/orderByQualifiedName"),("place of the suffix",KJ+"src/Kanji.cpp qualifiedNameRank"),("order of counts","libs/stats/src/Stats.cpp Stats::Count::operator<")],obs=["Kanji::orderByStrokes","Kanji::orderByQualifiedName","Kanji::qualifiedName","Stats::Count::operator<","Radical::operator<"])
p("C12","Symbols stand for names one to one",
  "A symbol made from an empty name is the empty symbol, whose name is empty; made from a name already known it gets the same number again, and from a new name the next number, so different names never share one and every symbol gives its own name back. A type holds at most 65534 names: making one more is refused with an error that changes nothing, while known names keep working. Asking whether a name is known never adds it.",
  ["inputs","histories"],"every name and every reachable table of names (any number of them, up to the limit)","the limit takes tens of thousands of names to reach and a wrong number only shows when two names meet; tests make a few symbols.",
  [U+"include/kt_utils/Symbol.h",U+"src/Symbol.cpp"],[("interning",U+"src/Symbol.cpp BaseSymbol::BaseSymbol"),("names",U+"include/kt_utils/Symbol.h Symbol::name")],state=[("symbol table","the map from names to numbers and the list of names, per symbol type",U+"include/kt_utils/Symbol.h")],obs=["Symbol::id","Symbol::name","Symbol::exists","Symbol::size"])
p("C15","Column files give each column its own value, checked when converted",
  "A row's values are its fields in the order of the header row, whatever order the columns were asked for in (an empty last field counts); a row with too few or too many values is refused, as are unknown, repeated or missing headers, and columns that are not part of the file. A number is a value made only of digits and at most the given maximum, an optional number may also be empty, a truth value is Y or T, N or F or empty, and a Unicode number is 4 or 5 upper case hexadecimal digits: anything else is refused with an error instead of being converted. Column numbers stand for column names one to one.",
  ["inputs","histories"],"every line of every length and content, every number of columns, delimiter and value, every set of column names made before","malformed data is what these checks exist for: signs, spaces, trailing text, overflow at 2^64, empty fields at the end; tests try one bad value each.",
  [U+"src/ColumnFile.cpp",U+"include/kt_utils/ColumnFile.h"],[("next row",U+"src/ColumnFile.cpp ColumnFile::nextRow"),("header",U+"src/ColumnFile.cpp ColumnFile::processHeaderRow"),("conversions",U+"src/ColumnFile.cpp ColumnFile::processU64, getBool, getChar32")],state=[("row","the values of the current row and the position of each column",U+"include/kt_utils/ColumnFile.h")],obs=["ColumnFile::nextRow","ColumnFile::get","ColumnFile::getU64","ColumnFile::getOptU64","ColumnFile::getBool","ColumnFile::getChar32"])
p("C22","Unicode data entries hold exactly their data and describe it exactly",
  "An entry of the Unicode character data exists only if its name is a single recognized Kanji and its code is the code of that name; its sources are letters out of G, H, J, K, T and V, none twice, which are given back in that order, apart from the Jōyō and Jinmeiyō marks, and anything else is refused. Every other value it is made from comes back from its own field, and its text and the texts of its links are '[code] name' in order, separated by commas. Whether it has links, which kind they are of, and whether readings were taken from them follow from the links and their kind alone.",
  ["inputs"],"every name, code, text, number of links and combination of source letters and marks","a field taken from the wrong argument, a mark that overlaps a source letter or a name of more than one character only shows for values the tests do not use (and the tests of the whole data file need a file that is not in the repository).",
  [KJ+"src/Ucd.cpp",KJ+"include/kt_kanji/Ucd.h"],[("entry",KJ+"src/Ucd.cpp Ucd::Entry"),("sources",KJ+"src/Ucd.cpp Ucd::getSources, Ucd::sources"),("links",KJ+"src/Ucd.cpp Ucd::linkCodeAndNames")],obs=["Ucd::Entry::codeAndName","Ucd::sources","Ucd::linkCodeAndNames","Ucd::hasTraditionalLinks","Ucd::linkedReadings"])
p("C23","Kanji, radicals and Unicode data are found under what they were stored under",
  "A kanji that is added is afterwards found under its name, under its other name if it is a variation, in the list of its grade, and in the lists of its Morohashi and Classic Nelson IDs, at their ends; nothing else changes, and a second kanji of the same name is refused. Looking up a name, an ID, a frequency, a radical or Unicode data gives exactly what was stored for it (for a variation what its other name or linked character stands for), and nothing, an empty list or an error otherwise. Kanji stored in the order of their frequencies 1, 2, 3 ... are each found by their frequency, however many there are.",
  ["inputs","histories"],"every name, ID, frequency and number of kanji, whatever was stored before","an index that is off at the edge of a list, a variation that is looked up without its link or an ID that lands in another list only shows for the entries the tests do not sample (and most of them come from a data file that is not in the repository).",
  [KJ+"src/KanjiData.cpp",KJ+"src/UcdData.cpp",KJ+"src/RadicalData.cpp"],[("insertion",KJ+"src/KanjiData.cpp KanjiData::checkInsert, addToFrequencies, addToKyus, addToLevels"),("lookups",KJ+"src/KanjiData.cpp KanjiData::findByName, findByFrequency, findByMorohashiId, findByNelsonId"),("Unicode data",KJ+"src/UcdData.cpp UcdData::find"),("radicals",KJ+"src/RadicalData.cpp RadicalData::find")],state=[("maps","names, other names, Morohashi and Nelson IDs, Unicode data and links",KJ+"include/kt_kanji/KanjiData.h")],obs=["KanjiData::checkInsert","KanjiData::findByName","KanjiData::findByFrequency","KanjiData::findByMorohashiId","KanjiData::getCompatibilityName","UcdData::find","RadicalData::find"])
p("C24","A quiz counts what the user answered",
  "A right answer adds one to the score and nothing to the mistakes, any other answer adds exactly the kanji or group asked about to the mistakes, and skipping, going back, quitting and showing meanings count as neither; a group is right exactly if every member was given a reading (and, if shown, a meaning) equal to its own, whatever choice it has. The final score adds up: right answers, mistakes in order and skipped questions. A quiz starts at the given question (refused beyond the last one), offers the choices that fit the mode and the question, and asks about exactly the group members of the chosen kind that have a reading.",
  ["inputs","histories"],"every state of a quiz, answer, number of questions, members and mistakes","a score that is off after one kind of answer, or a choice read as the wrong reading in a large group, only shows for sequences of answers and group sizes the tests do not play through.",
  [QZ+"src/Quiz.cpp",QZ+"src/GroupQuiz.cpp",QZ+"src/ListQuiz.cpp"],[("score",QZ+"src/Quiz.cpp Quiz::correctMessage, incorrectMessage, ~Quiz"),("groups",QZ+"src/GroupQuiz.cpp GroupQuiz::checkAnswers, includeMember"),("lists",QZ+"src/ListQuiz.cpp ListQuiz::getAnswer"),("start",QZ+"src/Quiz.cpp Quiz::beginQuizMessage, getDefaultChoices")],state=[("score","right answers, current question, mistakes",QZ+"include/kt_quiz/Quiz.h")],obs=["Quiz::correctMessage","Quiz::incorrectMessage","Quiz::~Quiz","Quiz::beginQuizMessage","GroupQuiz::checkAnswers","ListQuiz::getAnswer","GroupQuiz::includeMember"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
