// What the date, time, year and time-zone entries must say, computed from the
// simulated clock by civil-day arithmetic of our own. ICU is used for the UTC
// offset of the zone and to spell out one given civil date in one calendar.
#include "macro.h"

#include "env.h"

#include <unicode/calendar.h>
#include <unicode/datefmt.h>
#include <unicode/gregocal.h>
#include <unicode/locid.h>
#include <unicode/smpdtfmt.h>
#include <unicode/timezone.h>

#include <map>
#include <memory>
#include <vector>

namespace model {
namespace {
int64_t daysFromCivil(int64_t y, int m, int d) {
  y -= m <= 2;
  int64_t era = (y >= 0 ? y : y - 399) / 400;
  int64_t yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
void civilFromDays(int64_t z, int64_t* y, int* m, int* d) {
  z += 719468;
  int64_t era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  *d = (int)(doy - (153 * mp + 2) / 5 + 1);
  *m = (int)(mp < 10 ? mp + 3 : mp - 9);
  *y = yoe + era * 400 + (*m <= 2);
}
icu::Locale localeFor(const std::string& cal) {
  std::string n = cal == "japanese" ? "ja_JP" : "zh_Hant_TW";
  if (!cal.empty()) n += "@calendar=" + cal;
  return icu::Locale::createCanonical(n.c_str());
}
// spells out the civil date (days since 1970) or, with style/pattern of a time, the local instant
std::string spell(const std::string& cal, double localMs, int dateStyle, int timeStyle, const char* pattern) {
  UErrorCode st = U_ZERO_ERROR;
  icu::Locale loc = localeFor(cal);
  std::unique_ptr<icu::DateFormat> f;
  if (pattern) f.reset(new icu::SimpleDateFormat(icu::UnicodeString(pattern), loc, st));
  else f.reset(icu::DateFormat::createDateTimeInstance((icu::DateFormat::EStyle)dateStyle, (icu::DateFormat::EStyle)timeStyle, loc));
  f->setTimeZone(*icu::TimeZone::getGMT());
  icu::UnicodeString u;
  f->format(localMs, u);
  std::string out;
  u.toUTF8String(out);
  return out;
}
struct Spec {
  int kind;  // 0 date style, 1 year pattern, 2 weekday, 3 weekday2, 4 time, 5 zone, 6 ganzhi, 7 zodiac
  std::string cal;
  int off;
  int style;
  const char* pat;
};
const std::map<std::string, Spec>& specs() {
  static std::map<std::string, Spec> m;
  if (!m.empty()) return m;
  const int S = icu::DateFormat::kShort, M = icu::DateFormat::kMedium;
  struct { const char* n; int off; } day[] = {{"TODAY", 0}, {"YESTERDAY", -1}, {"TOMORROW", 1}}, yr[] = {{"THIS", 0}, {"LAST", -1}, {"NEXT", 1}};
  for (auto& d : day) {
    std::string p = std::string("MACRO@DATE_") + d.n;
    m[p + "_SHORT"] = {0, "", d.off, S, nullptr};
    m[p + "_MEDIUM"] = {0, "", d.off, M, nullptr};
    m[p + "_MEDIUM_ROC"] = {0, "roc", d.off, M, nullptr};
    m[p + "_MEDIUM_CHINESE"] = {0, "chinese", d.off, M, nullptr};
    m[p + "_MEDIUM_JAPANESE"] = {0, "japanese", d.off, M, nullptr};
    m[p + "_WEEKDAY_SHORT"] = {2, "", d.off, 0, "E"};
    m[p + "_WEEKDAY"] = {2, "", d.off, 0, "EEEE"};
    m[p + "2_WEEKDAY"] = {3, "", d.off, 0, "EEEE"};
    m[p + "_WEEKDAY_JAPANESE"] = {2, "japanese", d.off, 0, "EEEE"};
  }
  for (auto& y : yr) {
    std::string p = std::string("MACRO@") + y.n + "_YEAR";
    m[p + "_PLAIN"] = {1, "", y.off, 0, "y"};
    m[p + "_PLAIN_WITH_ERA"] = {1, "", y.off, 0, "Gy"};
    m[p + "_ROC"] = {1, "roc", y.off, 0, "Gy"};
    m[p + "_JAPANESE"] = {1, "japanese", y.off, 0, "Gy"};
    m[p + "_GANZHI"] = {6, "", y.off, 0, nullptr};
    m[p + "_CHINESE_ZODIAC"] = {7, "", y.off, 0, nullptr};
  }
  m["MACRO@TIME_NOW_SHORT"] = {4, "", 0, S, nullptr};
  m["MACRO@TIME_NOW_MEDIUM"] = {4, "", 0, M, nullptr};
  m["MACRO@TIMEZONE_STANDARD"] = {5, "", 0, icu::TimeZone::LONG_GENERIC, nullptr};
  m["MACRO@TIMEZONE_GENERIC_SHORT"] = {5, "", 0, icu::TimeZone::SHORT_GENERIC, nullptr};
  return m;
}
std::string compute(const Spec& s, int64_t ns) {
  std::unique_ptr<icu::TimeZone> tz(icu::TimeZone::createDefault());
  int64_t ms = ns >= 0 ? ns / 1000000 : -((-ns + 999999) / 1000000);
  if (s.kind == 5) {
    icu::UnicodeString u;
    sim::InProduct in;  // the name depends on the moment: let the library see the simulated clock
    tz->getDisplayName(false, (icu::TimeZone::EDisplayType)s.style, icu::Locale::createCanonical("zh_Hant_TW"), u);
    std::string o;
    u.toUTF8String(o);
    return o;
  }
  UErrorCode st = U_ZERO_ERROR;
  int32_t raw = 0, dst = 0;
  tz->getOffset((double)ms, false, raw, dst, st);
  int64_t local = ms + raw + dst;
  if (s.kind == 4) return spell("", (double)local, icu::DateFormat::kNone, s.style, nullptr);
  int64_t day = local >= 0 ? local / 86400000 : -((-local + 86399999) / 86400000);
  int64_t y;
  int mo, d;
  if (s.kind == 6 || s.kind == 7) {
    static const char* const gan[] = {"甲", "乙", "丙", "丁", "戊", "己", "庚", "辛", "壬", "癸"};
    static const char* const zhi[] = {"子", "丑", "寅", "卯", "辰", "巳", "午", "未", "申", "酉", "戌", "亥"};
    static const char* const el[] = {"木", "木", "火", "火", "土", "土", "金", "金", "水", "水"};
    static const char* const an[] = {"鼠", "牛", "虎", "兔", "龍", "蛇", "馬", "羊", "猴", "雞", "狗", "豬"};
    civilFromDays(day, &y, &mo, &d);
    int64_t c = y + s.off - 4;
    size_t g = (size_t)(((c % 10) + 10) % 10), z = (size_t)(((c % 12) + 12) % 12);
    return s.kind == 6 ? std::string(gan[g]) + zhi[z] + "年" : std::string(el[g]) + an[z] + "年";
  }
  if (s.kind == 1) {
    civilFromDays(day, &y, &mo, &d);
    y += s.off;
    if (mo == 2 && d == 29 && !((y % 4 == 0 && y % 100 != 0) || y % 400 == 0)) d = 28;
    day = daysFromCivil(y, mo, d);
    return spell(s.cal, day * 86400000.0 + 43200000.0, 0, 0, s.pat) + "年";
  }
  double noon = (day + s.off) * 86400000.0 + 43200000.0;
  if (s.kind == 0) return spell(s.cal, noon, s.style, icu::DateFormat::kNone, nullptr);
  std::string w = spell(s.cal, noon, 0, 0, s.pat);
  if (s.kind == 3) {
    size_t p = w.find("星期");
    if (p != std::string::npos) w.replace(p, 6, "禮拜");
  }
  return w;
}
}  // namespace

std::string macroValue(const std::string& name, int64_t clockNs) {
  if (name.compare(0, 6, "MACRO@")) return name;
  auto it = specs().find(name);
  if (it == specs().end()) return name;
  // building formatters is slow; one instant and zone asks for the same ones again and again
  static std::map<std::string, std::string> cache;
  static int64_t at = 0;
  static std::string zone;
  std::unique_ptr<icu::TimeZone> tz(icu::TimeZone::createDefault());
  icu::UnicodeString id;
  tz->getID(id);
  std::string z;
  id.toUTF8String(z);
  if (at != clockNs || z != zone) { cache.clear(); at = clockNs; zone = z; }
  auto c = cache.find(name);
  if (c != cache.end()) return c->second;
  return cache[name] = compute(it->second, clockNs);
}

bool zoneSkipsDay(int64_t ns) {
  std::unique_ptr<icu::TimeZone> tz(icu::TimeZone::createDefault());
  UErrorCode st = U_ZERO_ERROR;
  int32_t a, b, c, d;
  double ms = (double)(ns / 1000000);
  tz->getOffset(ms - 3 * 86400000.0, false, a, b, st);
  tz->getOffset(ms + 3 * 86400000.0, false, c, d, st);
  int64_t diff = (int64_t)(c + d) - (a + b);
  return diff > 10 * 3600000LL || diff < -10 * 3600000LL;
}
}  // namespace model
