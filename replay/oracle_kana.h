// Every kana: hiragana, katakana, unique reading, Hepburn and Kunrei readings (as the flags select them), voiced and semi-voiced forms.
#pragma once
#include <string>
#include <vector>
namespace orc {
struct KanaRef { std::string hira, kata, romaji, hepburn, kunrei, both, voiced, semi, plain; std::vector<std::string> more; };
inline const std::vector<KanaRef> KanaRefs{
  {"あ", "ア", "a", "a", "a", "a", "", "", "", {}},
  {"い", "イ", "i", "i", "i", "i", "", "", "", {}},
  {"う", "ウ", "u", "u", "u", "u", "ゔ", "", "", {"wu"}},
  {"え", "エ", "e", "e", "e", "e", "", "", "", {}},
  {"お", "オ", "o", "o", "o", "o", "", "", "", {}},
  {"か", "カ", "ka", "ka", "ka", "ka", "が", "", "", {}},
  {"き", "キ", "ki", "ki", "ki", "ki", "ぎ", "", "", {}},
  {"く", "ク", "ku", "ku", "ku", "ku", "ぐ", "", "", {}},
  {"け", "ケ", "ke", "ke", "ke", "ke", "げ", "", "", {}},
  {"こ", "コ", "ko", "ko", "ko", "ko", "ご", "", "", {}},
  {"が", "ガ", "ga", "ga", "ga", "ga", "", "", "か", {}},
  {"ぎ", "ギ", "gi", "gi", "gi", "gi", "", "", "き", {}},
  {"ぐ", "グ", "gu", "gu", "gu", "gu", "", "", "く", {}},
  {"げ", "ゲ", "ge", "ge", "ge", "ge", "", "", "け", {}},
  {"ご", "ゴ", "go", "go", "go", "go", "", "", "こ", {}},
  {"さ", "サ", "sa", "sa", "sa", "sa", "ざ", "", "", {}},
  {"し", "シ", "shi", "shi", "si", "si", "じ", "", "", {"si"}},
  {"す", "ス", "su", "su", "su", "su", "ず", "", "", {}},
  {"せ", "セ", "se", "se", "se", "se", "ぜ", "", "", {}},
  {"そ", "ソ", "so", "so", "so", "so", "ぞ", "", "", {}},
  {"ざ", "ザ", "za", "za", "za", "za", "", "", "さ", {}},
  {"じ", "ジ", "ji", "ji", "zi", "zi", "", "", "し", {"zi"}},
  {"ず", "ズ", "zu", "zu", "zu", "zu", "", "", "す", {}},
  {"ぜ", "ゼ", "ze", "ze", "ze", "ze", "", "", "せ", {}},
  {"ぞ", "ゾ", "zo", "zo", "zo", "zo", "", "", "そ", {}},
  {"た", "タ", "ta", "ta", "ta", "ta", "だ", "", "", {}},
  {"ち", "チ", "chi", "chi", "ti", "ti", "ぢ", "", "", {"ti"}},
  {"つ", "ツ", "tsu", "tsu", "tu", "tu", "づ", "", "", {"tu"}},
  {"て", "テ", "te", "te", "te", "te", "で", "", "", {}},
  {"と", "ト", "to", "to", "to", "to", "ど", "", "", {}},
  {"だ", "ダ", "da", "da", "da", "da", "", "", "た", {}},
  {"ぢ", "ヂ", "di", "ji", "zi", "ji", "", "", "ち", {}},
  {"づ", "ヅ", "du", "zu", "zu", "zu", "", "", "つ", {}},
  {"で", "デ", "de", "de", "de", "de", "", "", "て", {}},
  {"ど", "ド", "do", "do", "do", "do", "", "", "と", {}},
  {"な", "ナ", "na", "na", "na", "na", "", "", "", {}},
  {"に", "ニ", "ni", "ni", "ni", "ni", "", "", "", {}},
  {"ぬ", "ヌ", "nu", "nu", "nu", "nu", "", "", "", {}},
  {"ね", "ネ", "ne", "ne", "ne", "ne", "", "", "", {}},
  {"の", "ノ", "no", "no", "no", "no", "", "", "", {}},
  {"は", "ハ", "ha", "ha", "ha", "ha", "ば", "ぱ", "", {}},
  {"ひ", "ヒ", "hi", "hi", "hi", "hi", "び", "ぴ", "", {}},
  {"ふ", "フ", "fu", "fu", "hu", "hu", "ぶ", "ぷ", "", {"hu"}},
  {"へ", "ヘ", "he", "he", "he", "he", "べ", "ぺ", "", {}},
  {"ほ", "ホ", "ho", "ho", "ho", "ho", "ぼ", "ぽ", "", {}},
  {"ば", "バ", "ba", "ba", "ba", "ba", "", "", "は", {}},
  {"び", "ビ", "bi", "bi", "bi", "bi", "", "", "ひ", {}},
  {"ぶ", "ブ", "bu", "bu", "bu", "bu", "", "", "ふ", {}},
  {"べ", "ベ", "be", "be", "be", "be", "", "", "へ", {}},
  {"ぼ", "ボ", "bo", "bo", "bo", "bo", "", "", "ほ", {}},
  {"ぱ", "パ", "pa", "pa", "pa", "pa", "", "", "は", {}},
  {"ぴ", "ピ", "pi", "pi", "pi", "pi", "", "", "ひ", {}},
  {"ぷ", "プ", "pu", "pu", "pu", "pu", "", "", "ふ", {}},
  {"ぺ", "ペ", "pe", "pe", "pe", "pe", "", "", "へ", {}},
  {"ぽ", "ポ", "po", "po", "po", "po", "", "", "ほ", {}},
  {"ま", "マ", "ma", "ma", "ma", "ma", "", "", "", {}},
  {"み", "ミ", "mi", "mi", "mi", "mi", "", "", "", {}},
  {"む", "ム", "mu", "mu", "mu", "mu", "", "", "", {}},
  {"め", "メ", "me", "me", "me", "me", "", "", "", {}},
  {"も", "モ", "mo", "mo", "mo", "mo", "", "", "", {}},
  {"や", "ヤ", "ya", "ya", "ya", "ya", "", "", "", {}},
  {"ゆ", "ユ", "yu", "yu", "yu", "yu", "", "", "", {}},
  {"よ", "ヨ", "yo", "yo", "yo", "yo", "", "", "", {}},
  {"ら", "ラ", "ra", "ra", "ra", "ra", "", "", "", {}},
  {"り", "リ", "ri", "ri", "ri", "ri", "", "", "", {}},
  {"る", "ル", "ru", "ru", "ru", "ru", "", "", "", {}},
  {"れ", "レ", "re", "re", "re", "re", "", "", "", {}},
  {"ろ", "ロ", "ro", "ro", "ro", "ro", "", "", "", {}},
  {"わ", "ワ", "wa", "wa", "wa", "wa", "", "", "", {}},
  {"ゐ", "ヰ", "wyi", "i", "i", "i", "", "", "", {}},
  {"ゑ", "ヱ", "wye", "e", "e", "e", "", "", "", {}},
  {"を", "ヲ", "wo", "o", "o", "o", "", "", "", {}},
  {"ゔ", "ヴ", "vu", "vu", "vu", "vu", "", "", "う", {}},
  {"ん", "ン", "n", "n", "n", "n", "", "", "", {}},
  {"ぁ", "ァ", "la", "la", "la", "la", "", "", "", {"xa"}},
  {"ぃ", "ィ", "li", "li", "li", "li", "", "", "", {"xi"}},
  {"ぅ", "ゥ", "lu", "lu", "lu", "lu", "", "", "", {"xu"}},
  {"ぇ", "ェ", "le", "le", "le", "le", "", "", "", {"xe", "lye", "xye"}},
  {"ぉ", "ォ", "lo", "lo", "lo", "lo", "", "", "", {"xo"}},
  {"ゕ", "ヵ", "lka", "lka", "lka", "lka", "", "", "", {"xka"}},
  {"ゖ", "ヶ", "lke", "lke", "lke", "lke", "", "", "", {"xke"}},
  {"ゃ", "ャ", "lya", "lya", "lya", "lya", "", "", "", {"xya"}},
  {"ゅ", "ュ", "lyu", "lyu", "lyu", "lyu", "", "", "", {"xyu"}},
  {"ょ", "ョ", "lyo", "lyo", "lyo", "lyo", "", "", "", {"xyo"}},
  {"ゎ", "ヮ", "lwa", "lwa", "lwa", "lwa", "", "", "", {"xwa"}},
  {"っ", "ッ", "ltu", "ltu", "ltu", "ltu", "", "", "", {"xtu"}},
  {"きゃ", "キャ", "kya", "kya", "kya", "kya", "ぎゃ", "", "", {}},
  {"きぃ", "キィ", "kyi", "kyi", "kyi", "kyi", "ぎぃ", "", "", {}},
  {"きゅ", "キュ", "kyu", "kyu", "kyu", "kyu", "ぎゅ", "", "", {}},
  {"きぇ", "キェ", "kye", "kye", "kye", "kye", "ぎぇ", "", "", {}},
  {"きょ", "キョ", "kyo", "kyo", "kyo", "kyo", "ぎょ", "", "", {}},
  {"ぎゃ", "ギャ", "gya", "gya", "gya", "gya", "", "", "きゃ", {}},
  {"ぎぃ", "ギィ", "gyi", "gyi", "gyi", "gyi", "", "", "きぃ", {}},
  {"ぎゅ", "ギュ", "gyu", "gyu", "gyu", "gyu", "", "", "きゅ", {}},
  {"ぎぇ", "ギェ", "gye", "gye", "gye", "gye", "", "", "きぇ", {}},
  {"ぎょ", "ギョ", "gyo", "gyo", "gyo", "gyo", "", "", "きょ", {}},
  {"にゃ", "ニャ", "nya", "nya", "nya", "nya", "", "", "", {}},
  {"にぃ", "ニィ", "nyi", "nyi", "nyi", "nyi", "", "", "", {}},
  {"にゅ", "ニュ", "nyu", "nyu", "nyu", "nyu", "", "", "", {}},
  {"にぇ", "ニェ", "nye", "nye", "nye", "nye", "", "", "", {}},
  {"にょ", "ニョ", "nyo", "nyo", "nyo", "nyo", "", "", "", {}},
  {"ひゃ", "ヒャ", "hya", "hya", "hya", "hya", "びゃ", "ぴゃ", "", {}},
  {"ひぃ", "ヒィ", "hyi", "hyi", "hyi", "hyi", "びぃ", "ぴぃ", "", {}},
  {"ひゅ", "ヒュ", "hyu", "hyu", "hyu", "hyu", "びゅ", "ぴゅ", "", {}},
  {"ひぇ", "ヒェ", "hye", "hye", "hye", "hye", "びぇ", "ぴぇ", "", {}},
  {"ひょ", "ヒョ", "hyo", "hyo", "hyo", "hyo", "びょ", "ぴょ", "", {}},
  {"びゃ", "ビャ", "bya", "bya", "bya", "bya", "", "", "ひゃ", {}},
  {"びぃ", "ビィ", "byi", "byi", "byi", "byi", "", "", "ひぃ", {}},
  {"びゅ", "ビュ", "byu", "byu", "byu", "byu", "", "", "ひゅ", {}},
  {"びぇ", "ビェ", "bye", "bye", "bye", "bye", "", "", "ひぇ", {}},
  {"びょ", "ビョ", "byo", "byo", "byo", "byo", "", "", "ひょ", {}},
  {"ぴゃ", "ピャ", "pya", "pya", "pya", "pya", "", "", "ひゃ", {}},
  {"ぴぃ", "ピィ", "pyi", "pyi", "pyi", "pyi", "", "", "ひぃ", {}},
  {"ぴゅ", "ピュ", "pyu", "pyu", "pyu", "pyu", "", "", "ひゅ", {}},
  {"ぴぇ", "ピェ", "pye", "pye", "pye", "pye", "", "", "ひぇ", {}},
  {"ぴょ", "ピョ", "pyo", "pyo", "pyo", "pyo", "", "", "ひょ", {}},
  {"みゃ", "ミャ", "mya", "mya", "mya", "mya", "", "", "", {}},
  {"みぃ", "ミィ", "myi", "myi", "myi", "myi", "", "", "", {}},
  {"みゅ", "ミュ", "myu", "myu", "myu", "myu", "", "", "", {}},
  {"みぇ", "ミェ", "mye", "mye", "mye", "mye", "", "", "", {}},
  {"みょ", "ミョ", "myo", "myo", "myo", "myo", "", "", "", {}},
  {"りゃ", "リャ", "rya", "rya", "rya", "rya", "", "", "", {}},
  {"りぃ", "リィ", "ryi", "ryi", "ryi", "ryi", "", "", "", {}},
  {"りゅ", "リュ", "ryu", "ryu", "ryu", "ryu", "", "", "", {}},
  {"りぇ", "リェ", "rye", "rye", "rye", "rye", "", "", "", {}},
  {"りょ", "リョ", "ryo", "ryo", "ryo", "ryo", "", "", "", {}},
  {"ぢゃ", "ヂャ", "dya", "ja", "zya", "ja", "", "", "ちゃ", {}},
  {"ぢぃ", "ヂィ", "dyi", "dyi", "dyi", "dyi", "", "", "ちぃ", {}},
  {"ぢゅ", "ヂュ", "dyu", "ju", "zyu", "ju", "", "", "ちゅ", {}},
  {"ぢぇ", "ヂェ", "dye", "dye", "dye", "dye", "", "", "ちぇ", {}},
  {"ぢょ", "ヂョ", "dyo", "jo", "zyo", "jo", "", "", "ちょ", {}},
  {"てゃ", "テャ", "tha", "tha", "tha", "tha", "でゃ", "", "", {}},
  {"てぃ", "ティ", "thi", "thi", "thi", "thi", "でぃ", "", "", {}},
  {"てゅ", "テュ", "thu", "thu", "thu", "thu", "でゅ", "", "", {}},
  {"てぇ", "テェ", "the", "the", "the", "the", "でぇ", "", "", {}},
  {"てょ", "テョ", "tho", "tho", "tho", "tho", "でょ", "", "", {}},
  {"でゃ", "デャ", "dha", "dha", "dha", "dha", "", "", "てゃ", {}},
  {"でぃ", "ディ", "dhi", "dhi", "dhi", "dhi", "", "", "てぃ", {}},
  {"でゅ", "デュ", "dhu", "dhu", "dhu", "dhu", "", "", "てゅ", {}},
  {"でぇ", "デェ", "dhe", "dhe", "dhe", "dhe", "", "", "てぇ", {}},
  {"でょ", "デョ", "dho", "dho", "dho", "dho", "", "", "てょ", {}},
  {"しゃ", "シャ", "sha", "sha", "sya", "sya", "じゃ", "", "", {"sya"}},
  {"じゃ", "ジャ", "ja", "ja", "zya", "zya", "", "", "しゃ", {"zya", "jya"}},
  {"ちゃ", "チャ", "cha", "cha", "tya", "tya", "ぢゃ", "", "", {"tya"}},
  {"しぃ", "シィ", "syi", "syi", "syi", "syi", "じぃ", "", "", {}},
  {"じぃ", "ジィ", "jyi", "jyi", "jyi", "jyi", "", "", "しぃ", {"zyi"}},
  {"ちぃ", "チィ", "tyi", "tyi", "tyi", "tyi", "ぢぃ", "", "", {}},
  {"しゅ", "シュ", "shu", "shu", "syu", "syu", "じゅ", "", "", {"syu"}},
  {"じゅ", "ジュ", "ju", "ju", "zyu", "zyu", "", "", "しゅ", {"zyu", "jyu"}},
  {"ちゅ", "チュ", "chu", "chu", "tyu", "tyu", "ぢゅ", "", "", {"tyu"}},
  {"しぇ", "シェ", "she", "she", "she", "she", "じぇ", "", "", {}},
  {"じぇ", "ジェ", "je", "je", "je", "je", "", "", "しぇ", {"zye", "jye"}},
  {"ちぇ", "チェ", "che", "che", "che", "che", "ぢぇ", "", "", {"tye"}},
  {"しょ", "ショ", "sho", "sho", "syo", "syo", "じょ", "", "", {"syo"}},
  {"じょ", "ジョ", "jo", "jo", "zyo", "zyo", "", "", "しょ", {"zyo", "jyo"}},
  {"ちょ", "チョ", "cho", "cho", "tyo", "tyo", "ぢょ", "", "", {"tyo"}},
  {"くぁ", "クァ", "qa", "qa", "qa", "qa", "ぐぁ", "", "", {"kwa"}},
  {"くぃ", "クィ", "qi", "qi", "qi", "qi", "ぐぃ", "", "", {"kwi", "qwi"}},
  {"くぅ", "クゥ", "qu", "qu", "qu", "qu", "ぐぅ", "", "", {"kwu", "qwu"}},
  {"くぇ", "クェ", "qe", "qe", "qe", "qe", "ぐぇ", "", "", {"kwe", "qwe"}},
  {"くぉ", "クォ", "qo", "qo", "qo", "qo", "ぐぉ", "", "", {"kwo", "qwo"}},
  {"ぐぁ", "グァ", "gwa", "gwa", "gwa", "gwa", "", "", "くぁ", {}},
  {"ぐぃ", "グィ", "gwi", "gwi", "gwi", "gwi", "", "", "くぃ", {}},
  {"ぐぅ", "グゥ", "gwu", "gwu", "gwu", "gwu", "", "", "くぅ", {}},
  {"ぐぇ", "グェ", "gwe", "gwe", "gwe", "gwe", "", "", "くぇ", {}},
  {"ぐぉ", "グォ", "gwo", "gwo", "gwo", "gwo", "", "", "くぉ", {}},
  {"すぁ", "スァ", "swa", "swa", "swa", "swa", "", "", "", {}},
  {"すぃ", "スィ", "swi", "swi", "swi", "swi", "", "", "", {}},
  {"すぅ", "スゥ", "swu", "swu", "swu", "swu", "", "", "", {}},
  {"すぇ", "スェ", "swe", "swe", "swe", "swe", "", "", "", {}},
  {"すぉ", "スォ", "swo", "swo", "swo", "swo", "", "", "", {}},
  {"とぁ", "トァ", "twa", "twa", "twa", "twa", "どぁ", "", "", {}},
  {"とぃ", "トィ", "twi", "twi", "twi", "twi", "どぃ", "", "", {}},
  {"とぅ", "トゥ", "twu", "twu", "twu", "twu", "どぅ", "", "", {}},
  {"とぇ", "トェ", "twe", "twe", "twe", "twe", "どぇ", "", "", {}},
  {"とぉ", "トォ", "two", "two", "two", "two", "どぉ", "", "", {}},
  {"どぁ", "ドァ", "dwa", "dwa", "dwa", "dwa", "", "", "とぁ", {}},
  {"どぃ", "ドィ", "dwi", "dwi", "dwi", "dwi", "", "", "とぃ", {}},
  {"どぅ", "ドゥ", "dwu", "dwu", "dwu", "dwu", "", "", "とぅ", {}},
  {"どぇ", "ドェ", "dwe", "dwe", "dwe", "dwe", "", "", "とぇ", {}},
  {"どぉ", "ドォ", "dwo", "dwo", "dwo", "dwo", "", "", "とぉ", {}},
  {"くゎ", "クヮ", "qwa", "qwa", "qwa", "qwa", "", "", "", {}},
  {"ふぁ", "ファ", "fa", "fa", "fa", "fa", "", "", "", {"fwa", "hwa"}},
  {"つぁ", "ツァ", "tsa", "tsa", "tsa", "tsa", "", "", "", {}},
  {"ゔぁ", "ヴァ", "va", "va", "va", "va", "", "", "", {}},
  {"ふぃ", "フィ", "fi", "fi", "fi", "fi", "", "", "", {"fyi", "fwi", "hwi"}},
  {"つぃ", "ツィ", "tsi", "tsi", "tsi", "tsi", "", "", "", {}},
  {"ゔぃ", "ヴィ", "vi", "vi", "vi", "vi", "", "", "うぃ", {}},
  {"ふぅ", "フゥ", "fwu", "fwu", "fwu", "fwu", "", "", "", {}},
  {"ふぇ", "フェ", "fe", "fe", "fe", "fe", "", "", "", {"fye", "fwe", "hwe"}},
  {"つぇ", "ツェ", "tse", "tse", "tse", "tse", "", "", "", {}},
  {"ゔぇ", "ヴェ", "ve", "ve", "ve", "ve", "", "", "うぇ", {}},
  {"ふぉ", "フォ", "fo", "fo", "fo", "fo", "", "", "", {"fwo", "hwo"}},
  {"つぉ", "ツォ", "tso", "tso", "tso", "tso", "", "", "", {}},
  {"ゔぉ", "ヴォ", "vo", "vo", "vo", "vo", "", "", "", {}},
  {"ふゃ", "フャ", "fya", "fya", "fya", "fya", "", "", "", {}},
  {"ゔゃ", "ヴャ", "vya", "vya", "vya", "vya", "", "", "", {}},
  {"ふゅ", "フュ", "fyu", "fyu", "fyu", "fyu", "", "", "", {}},
  {"ゔゅ", "ヴュ", "vyu", "vyu", "vyu", "vyu", "", "", "", {}},
  {"ふょ", "フョ", "fyo", "fyo", "fyo", "fyo", "", "", "", {}},
  {"ゔょ", "ヴョ", "vyo", "vyo", "vyo", "vyo", "", "", "", {}},
  {"うぃ", "ウィ", "wi", "wi", "wi", "wi", "ゔぃ", "", "", {}},
  {"うぇ", "ウェ", "we", "we", "we", "we", "ゔぇ", "", "", {}},
  {"いぇ", "イェ", "ye", "ye", "ye", "ye", "", "", "", {}},
};
} // namespace orc
