From b8b87dfaa1c47a67eafc93061d90866c17929658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:49 +0000
Subject: [PATCH 01/11] fix: enum containers reject every index outside their
 range

checkIndex cast the index to Enum::Size before checking it and iterator moves
cast the new position (or overflowed), so values like 256 were accepted.
---
 libs/utils/include/kt_utils/EnumContainer.h | 24 ++++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/libs/utils/include/kt_utils/EnumContainer.h b/libs/utils/include/kt_utils/EnumContainer.h
index 9847a8e..5680891 100644
--- a/libs/utils/include/kt_utils/EnumContainer.h
+++ b/libs/utils/include/kt_utils/EnumContainer.h
@@ -5,6 +5,7 @@
 
 #include <compare>
 #include <concepts>
+#include <utility>
 
 namespace kanji_tools { /// \utils_group{EnumContainer}
 /// base classes used by EnumMap and EnumList
@@ -144,7 +145,10 @@ template <scoped_enum T, Enum::Size N> template <typename I>
 requires std::integral<I> || std::same_as<T, I>
 auto EnumContainer<T, N>::checkIndex(I i, const String& name) {
   const auto x{static_cast<Size>(i)};
-  if (x >= N) {
+  bool valid{x < N};
+  // also make sure 'i' isn't a value that was changed by the cast to 'Size'
+  if constexpr (std::integral<I>) valid = valid && std::cmp_equal(+i, x);
+  if (!valid) {
     String msg{name};
     if constexpr (std::is_same_v<I, T>)
       msg += "enum value " + std::to_string(x);
@@ -197,19 +201,23 @@ auto EnumContainer<T, N>::Iterator<Derived>::operator[](
 template <scoped_enum T, Enum::Size N>
 template <typename Derived>
 auto& EnumContainer<T, N>::Iterator<Derived>::operator+=(difference_type i) {
-  if (difference_type curIndex{index()}; (curIndex += i) < 0)
-    rangeError(BadBegin);
-  else if (const auto j{static_cast<Size>(curIndex)}; j > N)
-    rangeError(BadEnd);
-  else
-    index() = j;
+  // compare with distance to each end (instead of adding) to avoid overflow
+  const difference_type curIndex{index()};
+  if (i < -curIndex) rangeError(BadBegin);
+  if (i > N - curIndex) rangeError(BadEnd);
+  index() = static_cast<Size>(curIndex + i);
   return derived();
 }
 
 template <scoped_enum T, Enum::Size N>
 template <typename Derived>
 auto& EnumContainer<T, N>::Iterator<Derived>::operator-=(difference_type i) {
-  return *this += -i;
+  // can't use '+= -i' since it overflows for the smallest 'difference_type'
+  const difference_type curIndex{index()};
+  if (i > curIndex) rangeError(BadBegin);
+  if (i < curIndex - N) rangeError(BadEnd);
+  index() = static_cast<Size>(curIndex - i);
+  return derived();
 }
 
 template <scoped_enum T, Enum::Size N>
-- 
2.43.0


From caeb91628b14b67d096d842a543df7d5878083e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:11:39 +0000
Subject: [PATCH 02/11] fix: a character with a variation selector must be one
 multi-byte character

---
 libs/kana/src/Utf8Char.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/kana/src/Utf8Char.cpp b/libs/kana/src/Utf8Char.cpp
index 8630c20..cc141a2 100644
--- a/libs/kana/src/Utf8Char.cpp
+++ b/libs/kana/src/Utf8Char.cpp
@@ -66,7 +66,8 @@ bool Utf8Char::isCharWithVariationSelector(const String& s) {
   static constexpr auto MinSize{VarSelectorSize + MinMBSize},
       MaxSize{VarSelectorSize + MaxMBSize};
   return s.size() >= MinSize && s.size() <= MaxSize &&
-         isVariationSelector(s.substr(s.size() - VarSelectorSize));
+         isVariationSelector(s.substr(s.size() - VarSelectorSize)) &&
+         isValidMBUtf8(s.substr(0, s.size() - VarSelectorSize), true);
 }
 
 String Utf8Char::noVariationSelector(const String& s) {
-- 
2.43.0


From 6a95a9afa3a72580c768db65f6e98d58b52dcd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:17 +0000
Subject: [PATCH 03/11] fix: convert every kana of a group that is no entry, in
 order

---
 libs/kana/src/Converter.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 063af05..4d8d0a1 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -253,20 +253,22 @@ String Converter::processKana(const String& kanaGroup, CharType source,
       return processKanaMacron(prolong, prevKana, i->second);
     // if letter group is an unknown, split it up and try processing each part
     if (kanaGroup.size() > Kana::OneKanaSize) {
+      // process each part in order (since each one updates 'prevKana')
       const auto firstKana{kanaGroup.substr(0, Kana::OneKanaSize)};
       if (const auto i{sourceMap.find(kanaGroup.substr(Kana::OneKanaSize))};
-          i != sourceMap.end())
-        return romajiTarget() && Kana::SmallTsu.containsKana(firstKana) &&
-                       repeatingConsonants().contains(i->second->romaji()[0])
-                   ? processKanaMacron(prolong, prevKana, i->second, true)
-                   : processKana(firstKana, source, prevKana) +
-                         processKanaMacron(prolong, prevKana, i->second);
-      // return second part unconverted - this should be impossible by design
-      // since only Kana that exists in sourceMap are added to 'kanaGroup'
-      // XCOV_EXCL_START
-      return processKana(firstKana, source, prevKana) +
-             kanaGroup.substr(Kana::OneKanaSize);
-      // XCOV_EXCL_STOP
+          i != sourceMap.end()) {
+        if (romajiTarget() && Kana::SmallTsu.containsKana(firstKana) &&
+            repeatingConsonants().contains(i->second->romaji()[0]))
+          return processKanaMacron(prolong, prevKana, i->second, true);
+        const auto result{processKana(firstKana, source, prevKana)};
+        return result + processKanaMacron(prolong, prevKana, i->second);
+      }
+      // last part is a small Kana that doesn't combine with the one before it
+      const auto last{kanaGroup.size() - Kana::OneKanaSize};
+      const auto result{
+          processKana(kanaGroup.substr(0, last), source, prevKana)};
+      return result +
+             processKana(kanaGroup.substr(last), source, prevKana, prolong);
     }
   } else if (prolong)
     // a 'prolong mark' at the start of a group isn't valid so in this case just
-- 
2.43.0


From 65740bf280393f4a6e72797ef242efd1cc54aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:24 +0000
Subject: [PATCH 04/11] fix: a repeated capital consonant becomes a small tsu
 like a lower case one

---
 libs/kana/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 4d8d0a1..b6fea83 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -341,7 +341,7 @@ void Converter::processRomaji(String& letters, String& result) const {
     // unconverted since no valid romaji can be longer than 3 letters
     result += lower[0] == 'n' ? getN()
               : lower[0] == lower[1] || lower[0] == 't' && lower[1] == 'c'
-                  ? repeatingConsonants().contains(letters[0])
+                  ? repeatingConsonants().contains(lower[0])
                         ? getSmallTsu()
                         : letters.substr(0, 1) // error: first letter not valid
                   : letters.substr(0, 1);      // error: first letter not valid
-- 
2.43.0


From a8e8921788a429c6cd733d193780cbdc36b76252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:59:08 +0000
Subject: [PATCH 05/11] fix: nothing is repeated after a prolong mark
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A repeat mark after a prolonged group that starts with a small tsu (such as
っあーゝ) repeated the small tsu, after any other prolonged group it repeats
nothing.
---
 libs/kana/src/Converter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index b6fea83..506fdbd 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -281,6 +281,7 @@ String Converter::processKanaMacron(
     bool prolong, const Kana*& prevKana, const Kana* kana, bool sokuon) const {
   const auto& result{sokuon ? kana->getSokuonRomaji(_flags) : get(*kana)};
   if (prolong) {
+    prevKana = nullptr; // nothing to repeat after a prolong mark
     if (_target != CharType::Romaji) return result + Kana::ProlongMark;
     switch (result[result.size() - 1]) {
     case 'a': return result.substr(0, result.size() - 1) + "ā";
-- 
2.43.0


From 1bbcf7381094f1d1439f08483c24588168db513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:00:42 +0000
Subject: [PATCH 06/11] fix: partial letters stay before the symbol that ends
 them
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Letters that don't form a Rōmaji group were kept until the end of a word when a
multi-byte symbol followed, so k漢 was converted to 漢k (and k漢a to 漢か).
---
 libs/kana/src/Converter.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 506fdbd..1c5990b 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -299,6 +299,18 @@ String Converter::processKanaMacron(
 
 String Converter::toKana(const String& romajiInput) const {
   String result, letters, letter;
+  // process any remaining letters (at the end of input or before a symbol)
+  const auto done{[this, &result, &letters] {
+    while (!letters.empty())
+      if (isN(letters)) {
+        result += getN(); // normal case for a word ending in 'n'
+        letters.clear();
+      } else {
+        result += letters[0]; // error: output the unprocessed letter
+        letters = letters.substr(1);
+        processRomaji(letters, result);
+      }
+  }};
   for (Utf8Char s{romajiInput}; s.next(letter, false);)
     if (isSingleByte(letter)) {
       if (!isN(letter)) {
@@ -315,18 +327,10 @@ String Converter::toKana(const String& romajiInput) const {
         letters = letter; // 'n' starts a new group
       }
     } else if (!processRomajiMacron(letter, letters, result)) {
-      processRomaji(letters, result);
+      done();
       result += letter;
     }
-  while (!letters.empty())
-    if (isN(letters)) {
-      result += getN(); // normal case for a word ending in 'n'
-      letters.clear();
-    } else {
-      result += letters[0]; // error: output the unprocessed letter
-      letters = letters.substr(1);
-      processRomaji(letters, result);
-    }
+  done();
   return result;
 }
 
-- 
2.43.0


From 1b8ab8044c36dcd1f42e3f4d21a55232e0f5bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:44 +0000
Subject: [PATCH 07/11] fix: kanji counts are ordered by count, frequency, type
 and name

The comparison mixed its levels: of two counts of the same frequency and type
each could be less than the other, so it was no ordering for std::set.
---
 libs/stats/src/Stats.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/stats/src/Stats.cpp b/libs/stats/src/Stats.cpp
index dcaf834..bd0e71a 100644
--- a/libs/stats/src/Stats.cpp
+++ b/libs/stats/src/Stats.cpp
@@ -111,9 +111,11 @@ KanjiTypes Stats::Count::type() const {
 
 bool Stats::Count::operator<(const Count& x) const {
   return _count > x._count ||
-         (_count == x._count && frequency() < x.frequency() ||
-             (frequency() == x.frequency() && type() < x.type() ||
-                 (type() == x.type() && _name < x._name)));
+         _count == x._count &&
+             (frequency() < x.frequency() ||
+                 frequency() == x.frequency() &&
+                     (type() < x.type() ||
+                         type() == x.type() && _name < x._name));
 }
 
 std::ostream& operator<<(std::ostream& os, const Stats::Count& c) {
-- 
2.43.0


From 98f97d16943e9bf1dc69f255d2763bb741525c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:14:31 +0000
Subject: [PATCH 08/11] fix: column values converted to numbers must be digits
 only

'stoul' skips leading spaces, takes a sign ('-1' wrapped around to a huge
number) and ignores trailing text, so bad values were not reported.
---
 libs/utils/src/ColumnFile.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/utils/src/ColumnFile.cpp b/libs/utils/src/ColumnFile.cpp
index 141df70..ce55c83 100644
--- a/libs/utils/src/ColumnFile.cpp
+++ b/libs/utils/src/ColumnFile.cpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <charconv>
 #include <set>
 #include <sstream>
 
@@ -119,11 +120,11 @@ ColumnFile::OptU64 ColumnFile::getOptU64(const Column& c, uint64_t max) const {
 uint64_t ColumnFile::processU64(
     const String& s, const Column& column, uint64_t max) const {
   uint64_t i{};
-  try {
-    i = std::stoul(s);
-  } catch (...) {
+  // only allow digits, 'stoul' also accepts spaces, a sign and trailing text
+  const auto end{s.data() + s.size()};
+  if (const auto r{std::from_chars(s.data(), end, i)};
+      r.ec != std::errc{} || r.ptr != end)
     error("failed to convert to unsigned number", column, s);
-  }
   if (max && max < i)
     error("exceeded max value of " + std::to_string(max), column, s);
   return i;
-- 
2.43.0


From eb7434eae5cffc2c50bfcf1ab6f5d61d62e306b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:22 +0000
Subject: [PATCH 09/11] fix: kanji past the eleventh bucket of frequencies are
 found

---
 libs/kanji/src/KanjiData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/kanji/src/KanjiData.cpp b/libs/kanji/src/KanjiData.cpp
index 5f35259..e43b87a 100644
--- a/libs/kanji/src/KanjiData.cpp
+++ b/libs/kanji/src/KanjiData.cpp
@@ -110,8 +110,8 @@ KanjiPtr KanjiData::findByFrequency(Kanji::Frequency freq) const {
   if (!freq || freq >= _maxFrequency) return {};
   auto bucket{--freq};
   bucket /= FrequencyEntries;
-  if (bucket == FrequencyBuckets)
-    --bucket; // last bucket contains FrequencyEntries + 1
+  if (bucket >= FrequencyBuckets)
+    bucket = FrequencyBuckets - 1; // last bucket contains all the rest
   return _frequencies[bucket][freq - bucket * FrequencyEntries];
 }
 
-- 
2.43.0


From 140fc77019da9cbecb20db460d9ecf164524978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 10/11] fix: find the reading of a group answer that is an
 upper case letter

Groups with more than 26 members use 'A' to 'Z' for the further choices, but
every upper case letter is also 'less than z', so the place of its reading
was calculated as if it was a lower case letter (far outside of the list).
---
 libs/quiz/src/GroupQuiz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/quiz/src/GroupQuiz.cpp b/libs/quiz/src/GroupQuiz.cpp
index 4ee0f79..f44d1b1 100644
--- a/libs/quiz/src/GroupQuiz.cpp
+++ b/libs/quiz/src/GroupQuiz.cpp
@@ -258,7 +258,7 @@ void GroupQuiz::checkAnswers(
   size_t correctCount{};
   for (size_t count{}; auto i : _answers) {
     const auto answer{
-        static_cast<size_t>(i <= 'z' ? i - 'a' : i - 'A' + TotalLetters)};
+        static_cast<size_t>(i >= 'a' ? i - 'a' : i - 'A' + TotalLetters)};
     // always look at reading for a match and only additionally require matching
     // meanings if '_showMeanings' is true
     if (questions[count]->reading() == readings[answer]->reading() &&
-- 
2.43.0


From 954c0f307c1d5a36e56fa4f56d98323c7f0b2a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 11/11] fix: report a start without digits or beyond 64 bits as
 a usage error

'-r+' and '-t-' ended in the std::invalid_argument of std::stoul, and a number
of more than 64 bits in its std::out_of_range, instead of the usage messages.
---
 libs/quiz/src/QuizLauncher.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/quiz/src/QuizLauncher.cpp b/libs/quiz/src/QuizLauncher.cpp
index 2b26469..b5b2482 100644
--- a/libs/quiz/src/QuizLauncher.cpp
+++ b/libs/quiz/src/QuizLauncher.cpp
@@ -4,6 +4,7 @@
 #include <kt_quiz/QuizLauncher.h>
 
 #include <algorithm>
+#include <charconv>
 #include <sstream>
 
 namespace kanji_tools {
@@ -276,12 +277,12 @@ QuizLauncher::Question QuizLauncher::processProgramModeArg(const String& arg) {
         if (arg[2] == '+') offset = 3;
       }
       const auto s{arg.substr(offset)};
-      if (!std::all_of(s.begin(), s.end(), ::isdigit))
+      if (s.empty() || !std::all_of(s.begin(), s.end(), ::isdigit))
         KanjiData::usage(
             "invalid format for '" + arg.substr(0, 2) + "', use -h for help");
-      if (const auto i{std::stoul(s)};
-          i <= std::numeric_limits<Question>::max())
-        return static_cast<Question>(i);
+      if (Question i{};
+          std::from_chars(s.data(), s.data() + s.size(), i).ec == std::errc{})
+        return i;
       KanjiData::usage("value for '" + arg.substr(0, 2) + "' exceeds limit");
     }
   }
-- 
2.43.0

