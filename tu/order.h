// A Kanji whose virtual functions return whatever they are told to, to put every kind of Kanji behind the ordering functions.
#pragma once
#include <kt_kanji/Kanji.h>
#include <kt_kanji/KanjiData.h>
#include <kt_stats/Stats.h>
namespace kanji_tools {
class VcKanji final : public Kanji {
public:
  VcKanji(const String& name, const OptString& compat, RadicalRef r, Strokes s, const NelsonIds& n)
      : Kanji{name, compat, r, s, Pinyin{}, MorohashiId{}, n} {}
  KanjiTypes type() const final { return _type; }
  Frequency frequency() const final { return _frequency; }
  KanjiGrades grade() const final { return _grade; }
  KenteiKyus kyu() const final { return _kyu; }
  JlptLevels level() const final { return _level; }
  Meaning meaning() const final { return _meaning; }
  Reading reading() const final { return _reading; }
  KanjiTypes _type{};
  Frequency _frequency{};
  KanjiGrades _grade{};
  KenteiKyus _kyu{};
  JlptLevels _level{};
  String _meaning, _reading;
};
} // namespace kanji_tools
