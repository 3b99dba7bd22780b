From 9843a520420a48d5b25d5737bdae403fdcad45f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 01/29] fix: create the user's data folder on the first run

The existence check of the mcbopomofo folder tested an error code through a
comma operator and so never created the folder; parents are created too.
---
 src/LanguageModelLoader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 51d270d..0dc93af 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -76,7 +76,7 @@ LanguageModelLoader::LanguageModelLoader(
 
   [[maybe_unused]] std::error_code err;
   if (!std::filesystem::exists(userDataPath, err)) {
-    bool result = std::filesystem::create_directory(userDataPath, err);
+    bool result = std::filesystem::create_directories(userDataPath, err);
     if (result) {
       FCITX_MCBOPOMOFO_INFO()
           << "Created fcitx5 user data directory: " << userDataPath;
@@ -88,7 +88,7 @@ LanguageModelLoader::LanguageModelLoader(
   }
 
   userDataPath += "/mcbopomofo";
-  if (!std::filesystem::exists(userDataPath), err) {
+  if (!std::filesystem::exists(userDataPath, err)) {
     bool result = std::filesystem::create_directory(userDataPath, err);
     if (result) {
       FCITX_MCBOPOMOFO_INFO()
-- 
2.43.0


From b2b071540660309b5cc67031d098dd4907bd6364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 02/29] fix: treat a failed mapping of a data file as a failure
 to open it

mmap reports failure with MAP_FAILED, not with a null pointer: an empty file, a
folder or a lack of memory led to reads through an invalid pointer.
---
 src/Engine/MemoryMappedFile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Engine/MemoryMappedFile.cpp b/src/Engine/MemoryMappedFile.cpp
index d6e8952..7070b7c 100644
--- a/src/Engine/MemoryMappedFile.cpp
+++ b/src/Engine/MemoryMappedFile.cpp
@@ -35,7 +35,7 @@ namespace McBopomofo {
 MemoryMappedFile::MemoryMappedFile(MemoryMappedFile&& other) noexcept
     : fd_(std::exchange(other.fd_, -1)),
       data_(std::exchange(other.data_, nullptr)),
-      length_(std::exchange(other.length_, -1)) {}
+      length_(std::exchange(other.length_, 0)) {}
 
 MemoryMappedFile& MemoryMappedFile::operator=(
     MemoryMappedFile&& other) noexcept {
@@ -68,7 +68,8 @@ bool MemoryMappedFile::open(const char* path) {
   length_ = static_cast<size_t>(sb.st_size);
 
   data_ = mmap(nullptr, length_, PROT_READ, MAP_SHARED, fd_, 0);
-  if (data_ == nullptr) {
+  if (data_ == MAP_FAILED) {
+    data_ = nullptr;
     ::close(fd_);
     fd_ = -1;
     length_ = 0;
-- 
2.43.0


From a2ba5a871a4c01c304cee1bd57586b5545cf3924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 03/29] fix: survive damaged rows in the built-in data files

A score that is not a number made std::stod throw out of a key event; a row
without usable data made the grid believe in a reading that has no node; and
the last row of a file could hide the rows before it from longer keys.
---
 src/Engine/AssociatedPhrasesV2.cpp | 10 +++++++++-
 src/Engine/McBopomofoLM.cpp        |  5 +++--
 src/Engine/ParselessLM.cpp         | 28 ++++++++++++++++++++++++----
 src/Engine/ParselessPhraseDB.cpp   | 12 +++++++-----
 4 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/Engine/AssociatedPhrasesV2.cpp b/src/Engine/AssociatedPhrasesV2.cpp
index bd6f8c4..9c71561 100644
--- a/src/Engine/AssociatedPhrasesV2.cpp
+++ b/src/Engine/AssociatedPhrasesV2.cpp
@@ -24,6 +24,7 @@
 #include "AssociatedPhrasesV2.h"
 
 #include <algorithm>
+#include <cmath>
 #include <cstdlib>
 #include <limits>
 #include <sstream>
@@ -57,7 +58,14 @@ static double GetScoreInRow(const std::string_view& v) {
     return std::numeric_limits<double>::lowest();
   }
 
-  return std::stod(std::string(it, end));
+  // strtod, unlike stod, does not throw if the row is damaged.
+  char* parsed = nullptr;
+  std::string text(it, end);
+  double score = std::strtod(text.c_str(), &parsed);
+  if (parsed == text.c_str() || std::isnan(score)) {
+    return std::numeric_limits<double>::lowest();
+  }
+  return score;
 }
 
 // Parse an associated phrases entry to the Phrase struct.
diff --git a/src/Engine/McBopomofoLM.cpp b/src/Engine/McBopomofoLM.cpp
index f498ae3..50c6ea0 100644
--- a/src/Engine/McBopomofoLM.cpp
+++ b/src/Engine/McBopomofoLM.cpp
@@ -170,10 +170,11 @@ bool McBopomofoLM::hasUnigrams(const std::string& key) {
     return true;
   }
 
-  if (!excludedPhrases_.hasUnigrams(key)) {
-    return userPhrases_.hasUnigrams(key) || languageModel_.hasUnigrams(key);
+  if (!userPhrases_.hasUnigrams(key) && !languageModel_.hasUnigrams(key)) {
+    return false;
   }
 
+  // Having rows is not enough: they may all be excluded or unusable.
   return !getUnigrams(key).empty();
 }
 
diff --git a/src/Engine/ParselessLM.cpp b/src/Engine/ParselessLM.cpp
index 2cd6211..a46f8ab 100644
--- a/src/Engine/ParselessLM.cpp
+++ b/src/Engine/ParselessLM.cpp
@@ -28,12 +28,29 @@
 #include <sys/stat.h>
 #include <unistd.h>
 
+#include <cmath>
+#include <cstdlib>
 #include <memory>
 #include <string_view>
 #include <utility>
 
 namespace McBopomofo {
 
+// Scores are log probabilities. Anything beyond this bound (or that is not a
+// number at all) comes from a damaged row.
+static constexpr double kMaxScoreMagnitude = 1000000;
+
+static bool ParseScore(const std::string& s, double* score) {
+  char* end = nullptr;
+  double value = std::strtod(s.c_str(), &end);
+  if (end == s.c_str() || !std::isfinite(value) ||
+      std::abs(value) > kMaxScoreMagnitude) {
+    return false;
+  }
+  *score = value;
+  return true;
+}
+
 bool ParselessLM::isLoaded() const { return db_ != nullptr; }
 
 bool ParselessLM::open(const char* path) {
@@ -100,8 +117,10 @@ ParselessLM::getUnigrams(const std::string& key) {
       ++it;
     }
 
-    if (it != row.end()) {
-      score = std::stod(std::string(it, row.end()));
+    if (value.empty() || (it != row.end() &&
+                          !ParseScore(std::string(it, row.end()), &score))) {
+      // A damaged row.
+      continue;
     }
     results.emplace_back(std::move(value), score);
   }
@@ -159,8 +178,9 @@ std::vector<ParselessLM::FoundReading> ParselessLM::getReadings(
       ++it;
     }
 
-    if (it != row.end()) {
-      score = std::stod(std::string(it, row.end()));
+    if (it != row.end() && !ParseScore(std::string(it, row.end()), &score)) {
+      // A damaged row.
+      continue;
     }
     results.emplace_back(ParselessLM::FoundReading{key, score});
   }
diff --git a/src/Engine/ParselessPhraseDB.cpp b/src/Engine/ParselessPhraseDB.cpp
index 1d49e9f..6c0ae84 100644
--- a/src/Engine/ParselessPhraseDB.cpp
+++ b/src/Engine/ParselessPhraseDB.cpp
@@ -23,6 +23,7 @@
 
 #include "ParselessPhraseDB.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cstring>
 
@@ -115,13 +116,14 @@ const char* ParselessPhraseDB::findFirstMatchingLine(
     }
 
     // ptr is now in the "current" line we're interested in.
-    if (ptr + key.length() > end_) {
-      // not enough data to compare at this point, bail.
-      break;
+    size_t available = end_ - ptr;
+    int current_cmp =
+        memcmp(ptr, key.data(), std::min(available, key.length()));
+    if (current_cmp == 0 && available < key.length()) {
+      // Not enough data left to be a match: the line is "smaller" than the key.
+      current_cmp = -1;
     }
 
-    int current_cmp = memcmp(ptr, key.data(), key.length());
-
     if (current_cmp > 0) {
       bottom = mid - 1;
       continue;
-- 
2.43.0


From 2a58baa4d4b74c4e3601985c14862a94141afc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 04/29] fix: keep user phrase data readable when its file
 changes underneath

User files are edited by other programs at any time. The phrases pointed into a
shared mapping of the file, so that a truncation killed the input method and a
rewrite in place turned candidates into arbitrary text. Read the file into
memory instead.
---
 src/Engine/FileReader.h             | 54 +++++++++++++++++++++++++++++
 src/Engine/PhraseReplacementMap.cpp | 17 ++++-----
 src/Engine/PhraseReplacementMap.h   |  4 +--
 src/Engine/UserPhrasesLM.cpp        | 17 ++++-----
 src/Engine/UserPhrasesLM.h          |  3 +-
 5 files changed, 69 insertions(+), 26 deletions(-)
 create mode 100644 src/Engine/FileReader.h

diff --git a/src/Engine/FileReader.h b/src/Engine/FileReader.h
new file mode 100644
index 0000000..3623691
--- /dev/null
+++ b/src/Engine/FileReader.h
@@ -0,0 +1,54 @@
+// Copyright (c) 2024 and onwards The McBopomofo Authors.
+//
+// Permission is hereby granted, free of charge, to any person
+// obtaining a copy of this software and associated documentation
+// files (the "Software"), to deal in the Software without
+// restriction, including without limitation the rights to use,
+// copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the
+// Software is furnished to do so, subject to the following
+// conditions:
+//
+// The above copyright notice and this permission notice shall be
+// included in all copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
+// EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES
+// OF MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
+// NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT
+// HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY,
+// WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING
+// FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
+// OTHER DEALINGS IN THE SOFTWARE.
+
+#ifndef SRC_ENGINE_FILEREADER_H_
+#define SRC_ENGINE_FILEREADER_H_
+
+#include <fstream>
+#include <string>
+
+namespace McBopomofo {
+
+// Reads an entire file into memory. This is meant for the files that users (or
+// other programs) edit at any time: unlike a mapping, the copy never changes
+// and remains accessible when the file is truncated or rewritten in place.
+inline bool ReadFile(const char* path, std::string* content) {
+  std::ifstream ifs(path, std::ios::binary);
+  if (!ifs) {
+    return false;
+  }
+
+  content->clear();
+  char buf[4096];
+  do {
+    ifs.read(buf, sizeof(buf));
+    content->append(buf, static_cast<size_t>(ifs.gcount()));
+  } while (ifs);
+
+  // Reaching the end of the file is the only way to complete.
+  return ifs.eof() && !ifs.bad();
+}
+
+}  // namespace McBopomofo
+
+#endif  // SRC_ENGINE_FILEREADER_H_
diff --git a/src/Engine/PhraseReplacementMap.cpp b/src/Engine/PhraseReplacementMap.cpp
index 9a4739a..36ca28a 100644
--- a/src/Engine/PhraseReplacementMap.cpp
+++ b/src/Engine/PhraseReplacementMap.cpp
@@ -23,29 +23,24 @@
 
 #include "PhraseReplacementMap.h"
 
-#include <fcntl.h>
-#include <sys/mman.h>
-#include <sys/stat.h>
-#include <unistd.h>
-
-#include <fstream>
-
+#include "FileReader.h"
 #include "KeyValueBlobReader.h"
 
 namespace McBopomofo {
 
 bool PhraseReplacementMap::open(const char* path) {
-  if (!mmapedFile_.open(path)) {
+  close();
+  if (!ReadFile(path, &content_)) {
+    content_.clear();
     return false;
   }
 
-  // MemoryMappedFile self-closes, and so this is fine.
-  return load(mmapedFile_.data(), mmapedFile_.length());
+  return load(content_.data(), content_.length());
 }
 
 void PhraseReplacementMap::close() {
   keyValueMap_.clear();
-  mmapedFile_.close();
+  content_.clear();
 }
 
 bool PhraseReplacementMap::load(const char* data, size_t length) {
diff --git a/src/Engine/PhraseReplacementMap.h b/src/Engine/PhraseReplacementMap.h
index 1d2ce7b..2cccca4 100644
--- a/src/Engine/PhraseReplacementMap.h
+++ b/src/Engine/PhraseReplacementMap.h
@@ -28,8 +28,6 @@
 #include <map>
 #include <string>
 
-#include "MemoryMappedFile.h"
-
 namespace McBopomofo {
 
 class PhraseReplacementMap {
@@ -51,7 +49,7 @@ class PhraseReplacementMap {
 
  protected:
   std::map<std::string_view, std::string_view> keyValueMap_;
-  MemoryMappedFile mmapedFile_;
+  std::string content_;  // what keys and values refer to
 };
 
 }  // namespace McBopomofo
diff --git a/src/Engine/UserPhrasesLM.cpp b/src/Engine/UserPhrasesLM.cpp
index 7d6e57f..260a5a4 100644
--- a/src/Engine/UserPhrasesLM.cpp
+++ b/src/Engine/UserPhrasesLM.cpp
@@ -23,30 +23,27 @@
 
 #include "UserPhrasesLM.h"
 
-#include <fcntl.h>
-#include <sys/mman.h>
-#include <sys/stat.h>
-#include <unistd.h>
-
-#include <fstream>
+#include <string>
 #include <vector>
 
+#include "FileReader.h"
 #include "KeyValueBlobReader.h"
 
 namespace McBopomofo {
 
 bool UserPhrasesLM::open(const char* path) {
-  if (!mmapedFile_.open(path)) {
+  close();
+  if (!ReadFile(path, &content_)) {
+    content_.clear();
     return false;
   }
 
-  // MemoryMappedFile self-closes, and so this is fine.
-  return load(mmapedFile_.data(), mmapedFile_.length());
+  return load(content_.data(), content_.length());
 }
 
 void UserPhrasesLM::close() {
   keyRowMap.clear();
-  mmapedFile_.close();
+  content_.clear();
 }
 
 bool UserPhrasesLM::load(const char* data, size_t length) {
diff --git a/src/Engine/UserPhrasesLM.h b/src/Engine/UserPhrasesLM.h
index e58e048..d44ca7c 100644
--- a/src/Engine/UserPhrasesLM.h
+++ b/src/Engine/UserPhrasesLM.h
@@ -30,7 +30,6 @@
 #include <utility>
 #include <vector>
 
-#include "MemoryMappedFile.h"
 #include "gramambular2/language_model.h"
 
 namespace McBopomofo {
@@ -57,7 +56,7 @@ class UserPhrasesLM : public Formosa::Gramambular2::LanguageModel {
   static constexpr double kUserUnigramScore = 0;
 
  protected:
-  MemoryMappedFile mmapedFile_;
+  std::string content_;  // what keys and values refer to
   std::map<std::string_view, std::vector<std::string_view>> keyRowMap;
 };
 
-- 
2.43.0


From 70cfe7a42eb83c175c83de6f442e2177cc684091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 05/29] fix: load user files again after a failure to read them

The timestamp was recorded before the load, and so a file that could not be
read once (or was missing for an instant) stayed without effect until the next
edit.
---
 src/Engine/McBopomofoLM.cpp | 18 +++++++++++-------
 src/Engine/McBopomofoLM.h   |  7 ++++---
 src/LanguageModelLoader.cpp | 15 +++++++++++----
 src/TimestampedPath.h       |  3 +++
 4 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/Engine/McBopomofoLM.cpp b/src/Engine/McBopomofoLM.cpp
index 50c6ea0..e6c0f55 100644
--- a/src/Engine/McBopomofoLM.cpp
+++ b/src/Engine/McBopomofoLM.cpp
@@ -54,28 +54,32 @@ void McBopomofoLM::loadAssociatedPhrasesV2(const char* associatedPhrasesPath) {
   }
 }
 
-void McBopomofoLM::loadUserPhrases(const char* userPhrasesDataPath,
+bool McBopomofoLM::loadUserPhrases(const char* userPhrasesDataPath,
                                    const char* excludedPhrasesDataPath) {
   userPhrases_.close();
   excludedPhrases_.close();
 
-  if (userPhrasesDataPath) {
-    userPhrases_.open(userPhrasesDataPath);
+  bool result = true;
+  if (userPhrasesDataPath && !userPhrases_.open(userPhrasesDataPath)) {
+    result = false;
   }
-  if (excludedPhrasesDataPath) {
-    excludedPhrases_.open(excludedPhrasesDataPath);
+  if (excludedPhrasesDataPath &&
+      !excludedPhrases_.open(excludedPhrasesDataPath)) {
+    result = false;
   }
+  return result;
 }
 
 bool McBopomofoLM::isAssociatedPhrasesV2Loaded() const {
   return associatedPhrasesV2_.isLoaded();
 }
 
-void McBopomofoLM::loadPhraseReplacementMap(const char* phraseReplacementPath) {
+bool McBopomofoLM::loadPhraseReplacementMap(const char* phraseReplacementPath) {
   if (phraseReplacementPath) {
     phraseReplacement_.close();
-    phraseReplacement_.open(phraseReplacementPath);
+    return phraseReplacement_.open(phraseReplacementPath);
   }
+  return true;
 }
 
 std::vector<Formosa::Gramambular2::LanguageModel::Unigram>
diff --git a/src/Engine/McBopomofoLM.h b/src/Engine/McBopomofoLM.h
index 888cdd2..4adf399 100644
--- a/src/Engine/McBopomofoLM.h
+++ b/src/Engine/McBopomofoLM.h
@@ -76,12 +76,13 @@ class McBopomofoLM : public Formosa::Gramambular2::LanguageModel {
 
   // Loads (or reloads if already loaded) both the user phrases and the excluded
   // phrases files. If one argument is passed a nullptr, that file will not
-  // be loaded or reloaded.
-  void loadUserPhrases(const char* userPhrasesDataPath,
+  // be loaded or reloaded. Returns false if any of the files could not be read.
+  bool loadUserPhrases(const char* userPhrasesDataPath,
                        const char* excludedPhrasesDataPath);
 
   // Loads (or reloads if already loaded) the phrase replacement mapping file.
-  void loadPhraseReplacementMap(const char* phraseReplacementPath);
+  // Returns false if the file could not be read.
+  bool loadPhraseReplacementMap(const char* phraseReplacementPath);
 
   // Returns a list of unigrams for the reading. For example, if the reading is
   // "ㄇㄚ", the return may be [unigram("嗎"), unigram("媽") and so on.
diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 0dc93af..610e190 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -175,7 +175,7 @@ void LanguageModelLoader::reloadUserModelsIfNeeded() {
       // Disable phrases replacement now that the file is gone.
       lm_->setPhraseReplacementEnabled(false);
       // Reset the timestamp.
-      phrasesReplacementPath_.checkTimestamp();
+      phrasesReplacementPath_.forgetTimestamp();
       FCITX_MCBOPOMOFO_INFO() << "Phrases replacement disabled, file gone: "
                               << phrasesReplacementPath_.path();
     } else if (fileExists) {
@@ -197,13 +197,20 @@ void LanguageModelLoader::reloadUserModelsIfNeeded() {
     }
   }
 
+  // If a file cannot be read this time, try again with the next check.
   if (shouldReloadUserPhrases) {
-    lm_->loadUserPhrases(userPhrasesPath_.path().c_str(),
-                         excludedPhrasesPath_.path().c_str());
+    if (!lm_->loadUserPhrases(userPhrasesPath_.path().c_str(),
+                              excludedPhrasesPath_.path().c_str())) {
+      userPhrasesPath_.forgetTimestamp();
+      excludedPhrasesPath_.forgetTimestamp();
+    }
   }
 
   if (shouldReloadPhrasesReplacement) {
-    lm_->loadPhraseReplacementMap(phrasesReplacementPath_.path().c_str());
+    if (!lm_->loadPhraseReplacementMap(
+            phrasesReplacementPath_.path().c_str())) {
+      phrasesReplacementPath_.forgetTimestamp();
+    }
   }
 }
 
diff --git a/src/TimestampedPath.h b/src/TimestampedPath.h
index 31aa37c..4eae813 100644
--- a/src/TimestampedPath.h
+++ b/src/TimestampedPath.h
@@ -52,6 +52,9 @@ class TimestampedPath {
   bool timestampDifferentFromLastCheck();
   void checkTimestamp();
 
+  // Forgets the recorded timestamp, as if the path had never been checked.
+  void forgetTimestamp() { timestamp_ = {}; }
+
  protected:
   std::filesystem::path path_;
   std::filesystem::file_time_type timestamp_ = {};
-- 
2.43.0


From dcf3147ab854f8da66796dc1df088dc56f91d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 06/29] fix: append user phrases without harming the ones
 already stored

An added phrase was glued to the last line if another program had left it
without a line end, and a write that failed half way left a fragment that made
the parser give up on everything that follows.
---
 src/LanguageModelLoader.cpp | 57 ++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 610e190..c9517ba 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -28,6 +28,8 @@
 #include <filesystem>
 #include <fstream>
 #include <memory>
+#include <string>
+#include <system_error>
 #include <utility>
 
 #include "Log.h"
@@ -42,6 +44,45 @@ constexpr char kAssociatedPhrasesV2Path[] =
     "data/mcbopomofo-associated-phrases-v2.txt";
 constexpr char kPhrasesReplacementFilename[] = "phrases-replacement.txt";
 
+// Appends a line to a text file, and starts a new line first if the last one in
+// the file is not terminated. Either the entire line is written, or the file is
+// left as it was.
+static bool AppendLine(const std::filesystem::path& path, std::string line) {
+  std::error_code err;
+  const uintmax_t size = std::filesystem::file_size(path, err);
+  if (err) {
+    return false;
+  }
+
+  if (size > 0) {
+    std::ifstream ifs(path, std::ios::binary);
+    char last = 0;
+    if (!ifs.seekg(-1, std::ios_base::end) || !ifs.get(last)) {
+      return false;
+    }
+    if (last != '\n') {
+      line.insert(0, "\n");
+    }
+  }
+
+  std::ofstream ofs(path, std::ios_base::app);
+  if (!ofs) {
+    return false;
+  }
+  ofs << line;
+  ofs.close();
+  if (ofs) {
+    return true;
+  }
+
+  // Do not leave an incomplete line behind.
+  const uintmax_t newSize = std::filesystem::file_size(path, err);
+  if (!err && newSize > size && newSize < size + line.size()) {
+    std::filesystem::resize_file(path, size, err);
+  }
+  return false;
+}
+
 LanguageModelLoader::LanguageModelLoader(
     std::unique_ptr<LocalizedStrings> localizedStrings)
     : localizedStrings_(std::move(localizedStrings)),
@@ -136,13 +177,15 @@ void LanguageModelLoader::addUserPhrase(const std::string_view& reading,
     return;
   }
 
-  // TODO(unassigned): Guard against the case where the last byte is not "\n"?
-  std::ofstream ofs(userPhrasesPath_.path(), std::ios_base::app);
-  ofs << phrase << " " << reading << "\n";
-  ofs.close();
-
-  FCITX_MCBOPOMOFO_INFO() << "Added user phrase: " << phrase
-                          << ", reading: " << reading;
+  std::string line;
+  line.append(phrase).append(" ").append(reading).append("\n");
+  if (AppendLine(userPhrasesPath_.path(), line)) {
+    FCITX_MCBOPOMOFO_INFO() << "Added user phrase: " << phrase
+                            << ", reading: " << reading;
+  } else {
+    FCITX_MCBOPOMOFO_WARN() << "Failed to add user phrase: " << phrase
+                            << ", reading: " << reading;
+  }
   reloadUserModelsIfNeeded();
 }
 
-- 
2.43.0


From 1a69fa6b86fb36ebc728195a168c03e150092805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 07/29] fix: do not offer to add phrases that the phrase file
 cannot hold

A marked phrase with a blank in it was stored as a different phrase, and one
that begins with a number sign as a comment.
---
 src/KeyHandler.cpp | 12 ++++++++++++
 src/KeyHandler.h   |  1 +
 src/McBopomofo.cpp |  4 ++++
 3 files changed, 17 insertions(+)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 7dff5cb..64e5d0d 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -84,6 +84,16 @@ static bool MarkedPhraseExists(
       [&value](const auto& unigram) { return unigram.value() == value; });
 }
 
+// The user phrase file holds a phrase and its reading separated by a blank, and
+// a line that begins with a number sign is a comment.
+static bool MarkedPhraseStorable(const std::string& reading,
+                                 const std::string& value) {
+  constexpr char kBlanks[] = " \t\r\n";
+  return !value.empty() && value[0] != '#' &&
+         value.find_first_of(kBlanks) == std::string::npos &&
+         reading.find_first_of(kBlanks) == std::string::npos;
+}
+
 static double GetEpochNowInSeconds() {
   auto now = std::chrono::system_clock::now();
   int64_t timestamp = std::chrono::time_point_cast<std::chrono::seconds>(now)
@@ -1336,6 +1346,8 @@ std::unique_ptr<InputStates::Marking> KeyHandler::buildMarkingState(
     status = localizedStrings_->syllablesMaximum(kMaxValidMarkingReadingCount);
   } else if (MarkedPhraseExists(lm_, readingValue, marked)) {
     status = localizedStrings_->phraseAlreadyExists();
+  } else if (!MarkedPhraseStorable(readingValue, marked)) {
+    status = localizedStrings_->phraseNotStorable();
   } else {
     status = localizedStrings_->pressEnterToAddThePhrase();
     isValid = true;
diff --git a/src/KeyHandler.h b/src/KeyHandler.h
index feabbad..77ff45e 100644
--- a/src/KeyHandler.h
+++ b/src/KeyHandler.h
@@ -301,6 +301,7 @@ class KeyHandler {
     virtual std::string syllablesMaximum(size_t syllables) = 0;
     // Reference string: "phrase already exists"
     virtual std::string phraseAlreadyExists() = 0;
+    virtual std::string phraseNotStorable() { return {}; }
     // Reference string: "press Enter to add the phrase"
     virtual std::string pressEnterToAddThePhrase() = 0;
     // Reference string: "Marked: {0}, syllables: {1}, {2}"
diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 9d5e77e..cd9b202 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -322,6 +322,10 @@ class KeyHandlerLocalizedString : public KeyHandler::LocalizedStrings {
     return _("phrase already exists");
   }
 
+  std::string phraseNotStorable() override {
+    return _("phrase cannot be stored");
+  }
+
   std::string pressEnterToAddThePhrase() override {
     return _("press Enter to add the phrase");
   }
-- 
2.43.0


From 94fdd3f6a624d11f1b0019d14f3eb9a4d56e092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 08/29] fix: do not commit the prompt of a number being entered

---
 src/McBopomofo.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index cd9b202..29ed647 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -1478,7 +1478,10 @@ void McBopomofoEngine::handleChineseNumberState(
                                           : fcitx::TextFormatFlag::NoFlag};
 #endif
   fcitx::Text preedit;
-  preedit.append(current->composingBuffer(), normalFormat);
+  // The prompt is not text the user has composed: it must not be committed when
+  // the focus leaves the input context.
+  preedit.append(current->composingBuffer(),
+                 normalFormat | fcitx::TextFormatFlag::DontCommit);
   preedit.setCursor(static_cast<int>(current->composingBuffer().length()));
 
   if (useClientPreedit) {
@@ -1507,7 +1510,10 @@ void McBopomofoEngine::handleEnclosingNumberState(
                                           : fcitx::TextFormatFlag::NoFlag};
 #endif
   fcitx::Text preedit;
-  preedit.append(current->composingBuffer(), normalFormat);
+  // The prompt is not text the user has composed: it must not be committed when
+  // the focus leaves the input context.
+  preedit.append(current->composingBuffer(),
+                 normalFormat | fcitx::TextFormatFlag::DontCommit);
   preedit.setCursor(static_cast<int>(current->composingBuffer().length()));
 
   if (useClientPreedit) {
-- 
2.43.0


From 8aa97243be8eb9015a010ecc238330675b8ab1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 09/29] fix: leave nothing undelivered or on display when a
 client is left or reset

---
 src/McBopomofo.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 29ed647..8fe1342 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -609,7 +609,31 @@ void McBopomofoEngine::reset(const fcitx::InputMethodEntry& /*unused*/,
     // enterNewState() with Empty state, either, because that would trigger
     // commit of existing preedit buffer, resulting in double commit of the same
     // text.
+    //
+    // That only applies to the preedit that the client shows, however. What the
+    // input panel shows on behalf of a client without that ability has to be
+    // committed here when the focus is leaving.
+    auto* context = event.inputContext();
+    auto* notEmpty = dynamic_cast<InputStates::NotEmpty*>(state_.get());
+    if (event.type() == fcitx::EventType::InputContextFocusOut &&
+        notEmpty != nullptr &&
+        !context->capabilityFlags().test(fcitx::CapabilityFlag::Preedit)) {
+      context->commitString(notEmpty->composingBuffer);
+    }
     state_ = std::make_unique<InputStates::Empty>();
+
+    // Nothing is being composed or chosen anymore, so nothing of it may stay on
+    // display (and selectable), except for the client preedit that fcitx5 is
+    // about to commit.
+    if (event.type() == fcitx::EventType::InputContextReset) {
+      context->inputPanel().reset();
+      context->updatePreedit();
+    } else {
+      context->inputPanel().setCandidateList(nullptr);
+      context->inputPanel().setPreedit(fcitx::Text());
+      context->inputPanel().setAuxDown(fcitx::Text());
+    }
+    context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
   } else {
     enterNewState(event.inputContext(), std::make_unique<InputStates::Empty>());
   }
-- 
2.43.0


From fb5a513e0cf2135f39e46008c974376e5d6e7408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 10/29] fix: do not commit twice after looking a phrase up on a
 website

---
 src/KeyHandler.cpp | 12 ++++++++++--
 src/McBopomofo.cpp |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 64e5d0d..03f7693 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -566,8 +566,16 @@ void KeyHandler::candidateAssociatedPhraseSelected(
 void KeyHandler::dictionaryServiceSelected(std::string phrase, size_t index,
                                            InputState* currentState,
                                            StateCallback stateCallback) {
-  dictionaryServices_->lookup(std::move(phrase), index, currentState,
-                              stateCallback);
+  dictionaryServices_->lookup(
+      std::move(phrase), index, currentState,
+      [this, &stateCallback](std::unique_ptr<InputState> next) {
+        // What was being composed is about to be committed, and so it must not
+        // stay in the grid.
+        if (dynamic_cast<InputStates::Empty*>(next.get()) != nullptr) {
+          reset();
+        }
+        stateCallback(std::move(next));
+      });
 }
 
 void KeyHandler::candidatePanelCancelled(size_t originalCursor,
diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 8fe1342..4d39f5c 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -680,6 +680,7 @@ void McBopomofoEngine::keyEvent(const fcitx::InputMethodEntry& /*unused*/,
     if (maybeCandidateList == nullptr) {
       // TODO(unassigned): Just assert this.
       FCITX_MCBOPOMOFO_WARN() << "inconsistent state";
+      keyHandler_->reset();
       enterNewState(context, std::make_unique<InputStates::Empty>());
       context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
       context->updatePreedit();
-- 
2.43.0


From cc7ceb3ddde5e7a4090ce7542c8b0761e508eb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 11/29] fix: tell the numpad keys from the others

---
 src/McBopomofo.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 4d39f5c..0bd9566 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -101,9 +101,9 @@ static Key MapFcitxKey(const fcitx::Key& key) {
       // This path is taken when Shift is pressed--no longer a "simple" key.
       return Key::asciiKey(Key::SPACE, shiftPressed, ctrlPressed);
     case FcitxKey_Delete:
-      return Key::asciiKey(Key::DELETE, shiftPressed, ctrlPressed, true);
-    case FcitxKey_KP_Delete:
       return Key::asciiKey(Key::DELETE, shiftPressed, ctrlPressed);
+    case FcitxKey_KP_Delete:
+      return Key::asciiKey(Key::DELETE, shiftPressed, ctrlPressed, true);
     case FcitxKey_Tab:
       return Key::asciiKey(Key::TAB, shiftPressed, ctrlPressed);
     case FcitxKey_Left:
@@ -124,9 +124,9 @@ static Key MapFcitxKey(const fcitx::Key& key) {
     case FcitxKey_KP_End:
       return Key::namedKey(Key::KeyName::END, shiftPressed, ctrlPressed, true);
     case FcitxKey_Up:
-      return Key::namedKey(Key::KeyName::UP, shiftPressed, ctrlPressed, true);
-    case FcitxKey_KP_Up:
       return Key::namedKey(Key::KeyName::UP, shiftPressed, ctrlPressed);
+    case FcitxKey_KP_Up:
+      return Key::namedKey(Key::KeyName::UP, shiftPressed, ctrlPressed, true);
     case FcitxKey_Down:
       return Key::namedKey(Key::KeyName::DOWN, shiftPressed, ctrlPressed);
     case FcitxKey_KP_Down:
@@ -155,7 +155,7 @@ static Key MapFcitxKey(const fcitx::Key& key) {
     case FcitxKey_KP_8:
       return Key::asciiKey('8', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_9:
-      return Key::asciiKey('4', shiftPressed, ctrlPressed, true);
+      return Key::asciiKey('9', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_Decimal:
       return Key::asciiKey('.', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_Add:
-- 
2.43.0


From 3314f3210286a7477c5f3f1aac5aaefd7e45ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 12/29] fix: keep chosen candidates when editing at the
 beginning of the buffer

---
 src/Engine/gramambular2/reading_grid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Engine/gramambular2/reading_grid.cpp b/src/Engine/gramambular2/reading_grid.cpp
index 65bbd63..01a1625 100644
--- a/src/Engine/gramambular2/reading_grid.cpp
+++ b/src/Engine/gramambular2/reading_grid.cpp
@@ -372,12 +372,14 @@ void ReadingGrid::removeAffectedNodes(size_t loc) {
   //                XXXXX
   //            XXXXXXXXX
   //
-  if (spans_.empty()) {
+  //
+  // No span lies before the first one, and so there is nothing to break there.
+  if (spans_.empty() || loc == 0) {
     return;
   }
   size_t affectedLength = kMaximumSpanLength - 1;
   size_t begin = loc <= affectedLength ? 0 : loc - affectedLength;
-  size_t end = loc >= 1 ? loc - 1 : 0;
+  size_t end = loc - 1;
   for (size_t i = begin; i <= end; ++i) {
     spans_[i].removeNodesOfOrLongerThan(loc - i + 1);
   }
-- 
2.43.0


From 7463073202608411721ba6761a391f24552f236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 13/29] fix: do not read a state that has been replaced

---
 src/McBopomofo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 0bd9566..53e245d 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -917,6 +917,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       auto* previous = selecting->previousState.get();
       auto* choosing = dynamic_cast<InputStates::ChoosingCandidate*>(previous);
       if (choosing != nullptr) {
+        // The current state is gone once the callback is called.
+        size_t index = selecting->selectedCandidateIndex;
         auto copy = std::make_unique<InputStates::ChoosingCandidate>(*choosing);
         stateCallback(std::move(copy));
 
@@ -927,7 +929,6 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         auto* maybeCandidateList = dynamic_cast<fcitx::CommonCandidateList*>(
             context->inputPanel().candidateList().get());
 #endif
-        size_t index = selecting->selectedCandidateIndex;
         // Make sure fcitx5 shows the candidate page; needed when page > 0.
 #ifndef USE_LEGACY_FCITX5_API
         maybeCandidateList->setPage(static_cast<int>(index) /
@@ -952,6 +953,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       auto* choosing = dynamic_cast<InputStates::ChoosingCandidate*>(previous);
       auto* inputting = dynamic_cast<InputStates::Inputting*>(previous);
       if (choosing != nullptr) {
+        // The current state is gone once the callback is called.
+        size_t index = associatedPhrases->selectedCandidateIndex;
         auto copy = std::make_unique<InputStates::ChoosingCandidate>(*choosing);
         stateCallback(std::move(copy));
 
@@ -962,7 +965,6 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         auto* maybeCandidateList = dynamic_cast<fcitx::CommonCandidateList*>(
             context->inputPanel().candidateList().get());
 #endif
-        size_t index = associatedPhrases->selectedCandidateIndex;
 #ifndef USE_LEGACY_FCITX5_API
         // Make sure fcitx5 shows the candidate page; needed when page > 0.
         maybeCandidateList->setPage(static_cast<int>(index) /
-- 
2.43.0


From c37e8ad78da28b5b6ae6759d74d5557d5114e8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 14/29] fix: leave Pinyin behind when another keyboard layout
 is set

---
 src/Engine/Mandarin/Mandarin.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Engine/Mandarin/Mandarin.h b/src/Engine/Mandarin/Mandarin.h
index b797e0a..a15fa1b 100644
--- a/src/Engine/Mandarin/Mandarin.h
+++ b/src/Engine/Mandarin/Mandarin.h
@@ -373,11 +373,14 @@ class BopomofoReadingBuffer {
   }
 
   void setKeyboardLayout(const BopomofoKeyboardLayout* layout) {
-    layout_ = layout;
-
-    if (layout == BopomofoKeyboardLayout::HanyuPinyinLayout()) {
-      pinyin_mode_ = true;
-      pinyin_sequence_ = "";
+    if (layout != layout_) {
+      // What has been typed cannot be carried over from or to Pinyin.
+      bool wasPinyin = pinyin_mode_;
+      layout_ = layout;
+      pinyin_mode_ = layout == BopomofoKeyboardLayout::HanyuPinyinLayout();
+      if (pinyin_mode_ != wasPinyin) {
+        clear();
+      }
     }
   }
 
-- 
2.43.0


From bd0902963fb7039c16bf3b58e0ab7566f7ea6ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 15/29] fix: let Esc and Backspace handle an incomplete Pinyin
 sequence

---
 src/Engine/Mandarin/Mandarin.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Engine/Mandarin/Mandarin.h b/src/Engine/Mandarin/Mandarin.h
index a15fa1b..ee68fa4 100644
--- a/src/Engine/Mandarin/Mandarin.h
+++ b/src/Engine/Mandarin/Mandarin.h
@@ -451,7 +451,10 @@ class BopomofoReadingBuffer {
     }
   }
 
-  bool isEmpty() const { return syllable_.isEmpty(); }
+  bool isEmpty() const {
+    // A sequence that does not make a syllable (yet) is not empty, either.
+    return pinyin_mode_ ? pinyin_sequence_.empty() : syllable_.isEmpty();
+  }
 
   const std::string composedString() const {
     if (pinyin_mode_) {
-- 
2.43.0


From cf0275a70d2cf7d3e2f3dfc0e67ec2ecb60e1f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 16/29] fix: do not commit a text again when its client is left
 once more

---
 src/McBopomofo.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 53e245d..29cc520 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -590,6 +590,11 @@ void McBopomofoEngine::activate(const fcitx::InputMethodEntry& entry,
   keyHandler_->setHalfWidthPunctuationEnabled(
       config_.halfWidthPunctuationEnable.value());
   languageModelLoader_->reloadUserModelsIfNeeded();
+
+  // What is still in the client preedit was committed by fcitx5 when the focus
+  // left, and it would be committed again when the focus leaves next.
+  inputContext->inputPanel().setClientPreedit(fcitx::Text());
+  inputContext->updatePreedit();
 }
 
 void McBopomofoEngine::reset(const fcitx::InputMethodEntry& /*unused*/,
-- 
2.43.0


From 992b15eaabad0f624333b2d05dba751c15fd7ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:50 +0000
Subject: [PATCH 17/29] fix: open dictionary addresses as defined, and survive
 any definition file

---
 src/DictionaryService.cpp | 66 +++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 34 deletions(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index 9cf8e18..808206a 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -29,6 +29,7 @@
 #include <fmt/format.h>
 #include <json-c/json.h>
 
+#include <array>
 #include <iomanip>
 #include <ostream>
 #include <sstream>
@@ -38,6 +39,9 @@
 
 constexpr char kDataPath[] = "data/mcbopomofo-dictionary-service.json";
 
+// Stands for the phrase to look up in a URL template.
+constexpr char kEncodedPhrase[] = "(encoded)";
+
 std::string urlEncode(const std::string& str) {
   std::ostringstream encodedStream;
   encodedStream << std::hex << std::uppercase << std::setfill('0');
@@ -92,8 +96,11 @@ class HttpBasedDictionaryService : public McBopomofo::DictionaryService {
               size_t /*unused*/,
               const McBopomofo::StateCallback& stateCallback) override {
     std::string url = urlTemplate_;
-    std::string encoded = "(encoded)";
-    url.replace(url.find(encoded), url.length(), urlEncode(phrase));
+    size_t position = url.find(kEncodedPhrase);
+    if (position != std::string::npos) {
+      url.replace(position, std::string(kEncodedPhrase).length(),
+                  urlEncode(phrase));
+    }
     fcitx::startProcess({"xdg-open", url});
     // Since the input method launches a web browser, we just
     // change the state to close the candidate window.
@@ -148,62 +155,53 @@ void McBopomofo::DictionaryServices::load() {
         << "No dictionary service file: " << dictionaryServicesPath;
     return;
   }
-  int err = fseek(file, 0, SEEK_END);
-  if (err != 0) {
-    FCITX_MCBOPOMOFO_ERROR()
-        << "Error seeking dictionary service file: " << dictionaryServicesPath;
-    (void)fclose(file);
-    return;
-  }
-
-  long file_size = ftell(file);
-  if (file_size == -1) {
-    FCITX_MCBOPOMOFO_ERROR()
-        << "Error telling dictionary service file: " << dictionaryServicesPath;
-    (void)fclose(file);
-    return;
-  }
-  err = fseek(file, 0, SEEK_SET);
-  if (err != 0) {
-    FCITX_MCBOPOMOFO_ERROR()
-        << "Error seeking dictionary service file: " << dictionaryServicesPath;
-    (void)fclose(file);
-    return;
-  }
-
-  std::unique_ptr<char[]> json_data(new char[file_size + 1]);
-  size_t nchunkread = fread(json_data.get(), file_size, 1, file);
-  if (nchunkread != 1) {
+  // What is opened may turn out not to be a regular file, so its size is not
+  // relied on.
+  std::string json_data;
+  std::array<char, 4096> buffer;
+  size_t nread = 0;
+  while ((nread = fread(buffer.data(), 1, buffer.size(), file)) > 0) {
+    json_data.append(buffer.data(), nread);
+  }
+  bool failed = ferror(file) != 0;
+  int err = fclose(file);
+  if (failed) {
     FCITX_MCBOPOMOFO_ERROR()
         << "Error reading dictionary service file: " << dictionaryServicesPath;
-    (void)fclose(file);
     return;
   }
-  err = fclose(file);
   if (err != 0) {
     FCITX_MCBOPOMOFO_ERROR()
         << "Error closing dictionary service file: " << dictionaryServicesPath;
     // Pass through since we've already read the data.
   }
-  json_data[file_size] = '\0';
-  struct json_object* json_obj = json_tokener_parse(json_data.get());
+  struct json_object* json_obj = json_tokener_parse(json_data.c_str());
   if (json_obj == nullptr) {
     FCITX_MCBOPOMOFO_WARN()
         << "Dictionary service file not valid: " << dictionaryServicesPath;
     return;
   }
   struct json_object* servicesArray;
-  if (json_object_object_get_ex(json_obj, "services", &servicesArray)) {
+  if (json_object_object_get_ex(json_obj, "services", &servicesArray) &&
+      json_object_is_type(servicesArray, json_type_array)) {
     array_list* list = json_object_get_array(servicesArray);
     for (size_t i = 0; i < array_list_length(list); i++) {
       auto* element = (struct json_object*)array_list_get_idx(list, i);
       struct json_object* name;
       struct json_object* url_template;
       if (json_object_object_get_ex(element, "name", &name) &&
-          json_object_object_get_ex(element, "url_template", &url_template)) {
+          json_object_object_get_ex(element, "url_template", &url_template) &&
+          json_object_is_type(name, json_type_string) &&
+          json_object_is_type(url_template, json_type_string)) {
         std::string name_str = std::string(json_object_get_string(name));
         std::string url_template_str =
             std::string(json_object_get_string(url_template));
+        if (url_template_str.find(kEncodedPhrase) == std::string::npos) {
+          FCITX_MCBOPOMOFO_WARN()
+              << "Dictionary service without a place for the phrase: "
+              << name_str;
+          continue;
+        }
         auto service = std::make_unique<HttpBasedDictionaryService>(
             name_str, url_template_str);
         services_.push_back(std::move(service));
-- 
2.43.0


From 558e1bea600bf5ebd297bdeb2d37df45ac4145d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:50 +0000
Subject: [PATCH 18/29] fix: look up the candidate that is highlighted on the
 last page

---
 src/McBopomofo.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 29cc520..41c1a35 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -829,10 +829,17 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
     if (choosingCandidate != nullptr) {
       // Enter selecting dictionary service state.
       if (keyHandler_->hasDictionaryServices()) {
-        int page = candidateList->currentPage();
-        int pageSize = candidateList->size();
-        int selectedCandidateIndex =
-            page * pageSize + candidateList->cursorIndex();
+#ifdef USE_LEGACY_FCITX5_API
+        // The last page may hold less than the others.
+        size_t selectedCandidateIndex =
+            candidateList->currentPage() * selectionKeys_.size() +
+            candidateList->cursorIndex();
+#else
+        size_t selectedCandidateIndex = candidateList->globalCursorIndex();
+#endif
+        if (selectedCandidateIndex >= choosingCandidate->candidates.size()) {
+          return true;
+        }
         std::string phrase =
             choosingCandidate->candidates[selectedCandidateIndex].value;
         std::unique_ptr<InputStates::ChoosingCandidate> copy =
-- 
2.43.0


From 524fbe5d352dedaf0b12d24fb1a13b68fd7f8c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 19/29] fix: return to the empty state from a menu opened with
 nothing composed

---
 src/KeyHandler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 03f7693..67d91c1 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -580,7 +580,10 @@ void KeyHandler::dictionaryServiceSelected(std::string phrase, size_t index,
 
 void KeyHandler::candidatePanelCancelled(size_t originalCursor,
                                          StateCallback stateCallback) {
-  if (inputMode_ == InputMode::PlainBopomofo) {
+  // Nothing may be composed at this point if the panel was not for choosing
+  // among the candidates of a reading.
+  bool nothingComposed = reading_.isEmpty() && grid_.length() == 0;
+  if (inputMode_ == InputMode::PlainBopomofo || nothingComposed) {
     reset();
     std::unique_ptr<InputStates::EmptyIgnoringPrevious>
         emptyIgnorePreviousState =
-- 
2.43.0


From 59238dce9937d0d8297b4b4412c018f886f32f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 20/29] fix: ignore values that are not valid UTF-8

---
 src/Engine/McBopomofoLM.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/Engine/McBopomofoLM.cpp b/src/Engine/McBopomofoLM.cpp
index e6c0f55..a4837a0 100644
--- a/src/Engine/McBopomofoLM.cpp
+++ b/src/Engine/McBopomofoLM.cpp
@@ -29,6 +29,7 @@
 #include <utility>
 #include <vector>
 
+#include "UTF8Helper.h"
 #include "gramambular2/reading_grid.h"
 
 namespace McBopomofo {
@@ -36,6 +37,12 @@ namespace McBopomofo {
 static constexpr std::string_view kMacroPrefix = "MACRO@";
 static constexpr double kMacroScore = -8.0;
 
+// Values come from files that anything may have happened to, and fcitx5 throws
+// when it is given text that is not valid UTF-8.
+static bool IsValidUTF8(const std::string& s) {
+  return SubstringToCodePoints(s, s.size()).size() == s.size();
+}
+
 void McBopomofoLM::loadLanguageModel(const char* languageModelDataPath) {
   if (languageModelDataPath) {
     languageModel_.close();
@@ -199,7 +206,14 @@ std::string McBopomofoLM::getReading(const std::string& value) const {
 std::vector<AssociatedPhrasesV2::Phrase> McBopomofoLM::findAssociatedPhrasesV2(
     const std::string& prefixValue,
     const std::vector<std::string>& prefixReadings) const {
-  return associatedPhrasesV2_.findPhrases(prefixValue, prefixReadings);
+  std::vector<AssociatedPhrasesV2::Phrase> phrases;
+  for (const AssociatedPhrasesV2::Phrase& phrase :
+       associatedPhrasesV2_.findPhrases(prefixValue, prefixReadings)) {
+    if (IsValidUTF8(phrase.value)) {
+      phrases.push_back(phrase);
+    }
+  }
+  return phrases;
 }
 
 void McBopomofoLM::setPhraseReplacementEnabled(bool enabled) {
@@ -272,6 +286,9 @@ McBopomofoLM::filterAndTransformUnigrams(
       std::string replacement = externalConverter_(value);
       value = replacement;
     }
+    if (!IsValidUTF8(value)) {
+      continue;
+    }
     if (insertedValues.find(value) == insertedValues.end()) {
       results.emplace_back(value, unigram.score());
       insertedValues.insert(value);
-- 
2.43.0


From eb8b2bb48627bbb490f416c1984a085cfe563fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 21/29] fix: ignore dictionary services whose names are not
 valid UTF-8

---
 src/DictionaryService.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index 808206a..2bfb768 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -26,6 +26,7 @@
 #include <fcitx-utils/i18n.h>
 #include <fcitx-utils/misc.h>
 #include <fcitx-utils/standardpath.h>
+#include <fcitx-utils/utf8.h>
 #include <fmt/format.h>
 #include <json-c/json.h>
 
@@ -196,10 +197,10 @@ void McBopomofo::DictionaryServices::load() {
         std::string name_str = std::string(json_object_get_string(name));
         std::string url_template_str =
             std::string(json_object_get_string(url_template));
-        if (url_template_str.find(kEncodedPhrase) == std::string::npos) {
+        if (!fcitx::utf8::validate(name_str) ||
+            url_template_str.find(kEncodedPhrase) == std::string::npos) {
           FCITX_MCBOPOMOFO_WARN()
-              << "Dictionary service without a place for the phrase: "
-              << name_str;
+              << "Unusable dictionary service: " << name_str;
           continue;
         }
         auto service = std::make_unique<HttpBasedDictionaryService>(
-- 
2.43.0


From 3cb2b82bbc5676d5f5a2ff1f9073a45c7de70910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:51 +0000
Subject: [PATCH 22/29] fix: do not compose an associated phrase whose readings
 have no candidates

---
 src/KeyHandler.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 67d91c1..8a29d92 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1623,6 +1623,14 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
     return;
   }
 
+  // The phrase cannot be composed if one of its readings has no candidates, for
+  // example because the user has excluded them.
+  for (size_t i = nodeSpanningLength; i < splitReadingsSize; i++) {
+    if (!lm_->hasUnigrams(splitReadings[i])) {
+      return;
+    }
+  }
+
   for (size_t i = nodeSpanningLength; i < splitReadingsSize; i++) {
     grid_.insertReading(splitReadings[i]);
     ++accumulatedCursor;
-- 
2.43.0


From 627de1f40447781661030e6d50a1bf4b93f45f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:51 +0000
Subject: [PATCH 23/29] fix: give the readings of an associated phrase their
 own values, not those after it

---
 src/KeyHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 8a29d92..5b738a3 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1633,13 +1633,13 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
 
   for (size_t i = nodeSpanningLength; i < splitReadingsSize; i++) {
     grid_.insertReading(splitReadings[i]);
-    ++accumulatedCursor;
     // For each node, we assign the value of the corresponding phrase.
     // If the phrase is not found in the phrase database, we perform a fallback
     // instead.
     if (i < associatedPhraseValues.size()) {
       grid_.overrideCandidate(accumulatedCursor, associatedPhraseValues[i]);
     }
+    ++accumulatedCursor;
     grid_.setCursor(accumulatedCursor);
   }
 
-- 
2.43.0


From c0f76963c59cef7525544d843124555aa4cc1e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:19 +0000
Subject: [PATCH 24/29] fix: never overwrite a user file that could not be
 inspected at the start

---
 src/LanguageModelLoader.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index c9517ba..ad8b573 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -25,6 +25,7 @@
 
 #include <fcitx-utils/standardpath.h>
 
+#include <cstdio>
 #include <filesystem>
 #include <fstream>
 #include <memory>
@@ -83,6 +84,19 @@ static bool AppendLine(const std::filesystem::path& path, std::string line) {
   return false;
 }
 
+// Creates a text file. A file that is already there (but may have been missed,
+// if it could not be inspected) is left alone.
+static bool CreateFile(const std::filesystem::path& path,
+                       const std::string& content) {
+  FILE* file = fopen(path.c_str(), "wx");
+  if (file == nullptr) {
+    return false;
+  }
+  fwrite(content.data(), 1, content.size(), file);
+  fclose(file);
+  return true;
+}
+
 LanguageModelLoader::LanguageModelLoader(
     std::unique_ptr<LocalizedStrings> localizedStrings)
     : localizedStrings_(std::move(localizedStrings)),
@@ -259,21 +273,17 @@ void LanguageModelLoader::reloadUserModelsIfNeeded() {
 
 void LanguageModelLoader::populateUserDataFilesIfNeeded() {
   if (!userPhrasesPath_.path().empty() && !userPhrasesPath_.pathExists()) {
-    std::ofstream ofs(userPhrasesPath_.path());
-    if (ofs) {
-      FCITX_MCBOPOMOFO_INFO() << "Creating: " << userPhrasesPath_.path();
-      ofs << localizedStrings_->userPhraseFileHeader();
-      ofs.close();
+    if (CreateFile(userPhrasesPath_.path(),
+                   localizedStrings_->userPhraseFileHeader())) {
+      FCITX_MCBOPOMOFO_INFO() << "Created: " << userPhrasesPath_.path();
     }
   }
 
   if (!excludedPhrasesPath_.path().empty() &&
       !excludedPhrasesPath_.pathExists()) {
-    std::ofstream ofs(excludedPhrasesPath_.path());
-    if (ofs) {
-      FCITX_MCBOPOMOFO_INFO() << "Creating: " << excludedPhrasesPath_.path();
-      ofs << localizedStrings_->excludedPhraseFileHeader();
-      ofs.close();
+    if (CreateFile(excludedPhrasesPath_.path(),
+                   localizedStrings_->excludedPhraseFileHeader())) {
+      FCITX_MCBOPOMOFO_INFO() << "Created: " << excludedPhrasesPath_.path();
     }
   }
 }
-- 
2.43.0


From bc7c55897998b4af74d52abed6ab7bec74a049d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 25/29] fix: keep a candidate highlighted when the panel turns
 the page

After the arrows of the candidate window had been used, no candidate of the
page was highlighted, and Return (or a key that picks the highlighted candidate)
asked for candidate -1, which throws and ends the input method.
---
 src/McBopomofo.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 41c1a35..357da20 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -1017,10 +1017,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
 
     if (candidateList->hasNext()) {
       candidateList->next();
-      candidateList->toCursorMovable()->nextCandidate();
     } else if (candidateList->currentPage() > 0) {
       candidateList->setPage(0);
-      candidateList->toCursorMovable()->nextCandidate();
     }
     context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
     return true;
@@ -1046,10 +1044,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         key.checkKeyList(instance_->globalConfig().defaultNextPage())) {
       if (candidateList->hasNext()) {
         candidateList->next();
-        candidateList->toCursorMovable()->nextCandidate();
       } else if (candidateList->currentPage() > 0) {
         candidateList->setPage(0);
-        candidateList->toCursorMovable()->nextCandidate();
       }
       context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
       return true;
@@ -1061,13 +1057,11 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         key.checkKeyList(instance_->globalConfig().defaultPrevPage())) {
       if (candidateList->hasPrev()) {
         candidateList->prev();
-        candidateList->toCursorMovable()->nextCandidate();
       } else {
         int totalPages = candidateList->totalPages();
         if (totalPages > 0) {
           candidateList->setPage(totalPages - 1);
         }
-        candidateList->toCursorMovable()->nextCandidate();
       }
       context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
       return true;
@@ -1092,10 +1086,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         key.checkKeyList(instance_->globalConfig().defaultNextPage())) {
       if (candidateList->hasNext()) {
         candidateList->next();
-        candidateList->toCursorMovable()->nextCandidate();
       } else if (candidateList->currentPage() > 0) {
         candidateList->setPage(0);
-        candidateList->toCursorMovable()->nextCandidate();
       }
       context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
       return true;
@@ -1107,13 +1099,11 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         key.checkKeyList(instance_->globalConfig().defaultPrevPage())) {
       if (candidateList->hasPrev()) {
         candidateList->prev();
-        candidateList->toCursorMovable()->nextCandidate();
       } else {
         int totalPages = candidateList->totalPages();
         if (totalPages > 0) {
           candidateList->setPage(totalPages - 1);
         }
-        candidateList->toCursorMovable()->nextCandidate();
       }
       context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
       return true;
@@ -1480,6 +1470,10 @@ void McBopomofoEngine::handleCandidatesState(fcitx::InputContext* context,
     }
   }
 
+  // However the page is turned (the panel may do so too), a candidate of that
+  // page is the one that is highlighted.
+  candidateList->setCursorPositionAfterPaging(
+      fcitx::CursorPositionAfterPaging::ResetToFirst);
   candidateList->toCursorMovable()->nextCandidate();
   context->inputPanel().reset();
   context->inputPanel().setCandidateList(std::move(candidateList));
-- 
2.43.0


From 8ca5c551acb98b0bbdb385f2eafa81e1b5670716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 26/29] fix: commit a pending reading before the space of
 Shift+Space

A reading still being typed with nothing before it was dropped, whereas one
with text before it was committed along with that text.
---
 src/KeyHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 5b738a3..d4186ff 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -255,7 +255,7 @@ bool KeyHandler::handle(Key key, McBopomofo::InputState* state,
       walk();
       stateCallback(buildInputtingState());
     } else {
-      if (grid_.length() != 0) {
+      if (grid_.length() != 0 || !reading_.isEmpty()) {
         auto inputtingState = buildInputtingState();
         // Steal the composingBuffer built by the inputting state.
         auto committingState = std::make_unique<InputStates::Committing>(
-- 
2.43.0


From 03db0e89fed8704620fb069ec5cf9cd1ccccb4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 27/29] fix: change nothing when a chosen associated phrase
 cannot be composed

The node at the prefix was split, and choices made before were dropped,
before it turned out that the prefix or one of the readings that follow has
no candidates. If it was the prefix, the composing text was not even updated,
and changed with the next key.
---
 src/KeyHandler.cpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index d4186ff..1e293cf 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1576,6 +1576,27 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
     return;
   }
 
+  // The phrase cannot be composed if its prefix or one of the readings that
+  // follow has no candidates (any more), for example because the user has
+  // excluded them. Change nothing then.
+  std::vector<std::string> splitReadings =
+      AssociatedPhrasesV2::SplitReadings(associatedPhraseReading);
+  size_t splitReadingsSize = splitReadings.size();
+  auto candidates = grid_.candidatesAt(actualPrefixCursorIndex);
+  if (std::none_of(candidates.cbegin(), candidates.cend(),
+                   [&](const auto& candidate) {
+                     return candidate.reading == prefixReading &&
+                            candidate.value == prefixValue;
+                   })) {
+    return;
+  }
+  for (size_t i = AssociatedPhrasesV2::SplitReadings(prefixReading).size();
+       i < splitReadingsSize; i++) {
+    if (!lm_->hasUnigrams(splitReadings[i])) {
+      return;
+    }
+  }
+
   // Let's do a split override. If a node is now ABCD, let's make four overrides
   // A-B-C-D, essentially splitting the node. Why? Because we're inserting an
   // associated phrase. Say the phrase is BCEF with the prefix BC. If we don't
@@ -1615,22 +1636,11 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
       McBopomofo::Split(associatedPhraseValue);
 
   size_t nodeSpanningLength = (*nodeIter)->spanningLength();
-  std::vector<std::string> splitReadings =
-      AssociatedPhrasesV2::SplitReadings(associatedPhraseReading);
-  size_t splitReadingsSize = splitReadings.size();
   if (nodeSpanningLength >= splitReadingsSize) {
     // Shouldn't happen
     return;
   }
 
-  // The phrase cannot be composed if one of its readings has no candidates, for
-  // example because the user has excluded them.
-  for (size_t i = nodeSpanningLength; i < splitReadingsSize; i++) {
-    if (!lm_->hasUnigrams(splitReadings[i])) {
-      return;
-    }
-  }
-
   for (size_t i = nodeSpanningLength; i < splitReadingsSize; i++) {
     grid_.insertReading(splitReadings[i]);
     // For each node, we assign the value of the corresponding phrase.
-- 
2.43.0


From 6b66d83cf0ee12cf445ceedc6d8c406fdd0cca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 28/29] fix: put as many candidates on a page as the settings
 say

---
 src/McBopomofo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 357da20..2618727 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -1255,6 +1255,8 @@ void McBopomofoEngine::handleCandidatesState(fcitx::InputContext* context,
       std::make_unique<fcitx::CommonCandidateList>();
 
   auto keysConfig = config_.selectionKeys.value();
+  // The option only allows values between 4 and 9.
+  auto keysCount = static_cast<size_t>(config_.selectionKeysCount.value());
   selectionKeys_.clear();
 
   InputStates::AssociatedPhrases* associatedPhrases =
@@ -1272,6 +1274,7 @@ void McBopomofoEngine::handleCandidatesState(fcitx::InputContext* context,
     selectionKeys_ = fcitx::Key::keyListFromString(
         "Shift+1 Shift+2 Shift+3 Shift+4 Shift+5 Shift+6 Shift+7 Shift+8 "
         "Shift+9");
+    selectionKeys_.resize(keysCount);
 #ifdef USE_LEGACY_FCITX5_API
 #else
     std::vector<std::string> labels = {
@@ -1300,6 +1303,7 @@ void McBopomofoEngine::handleCandidatesState(fcitx::InputContext* context,
       numpadSelectionKeys_.emplace_back(FcitxKey_KP_8);
       numpadSelectionKeys_.emplace_back(FcitxKey_KP_9);
     }
+    selectionKeys_.resize(keysCount);
     candidateList->setSelectionKey(selectionKeys_);
     candidateList->setPageSize(static_cast<int>(selectionKeys_.size()));
   }
-- 
2.43.0


From 2f3db32db2840105a9001a0ebeaa3c441b77a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:17 +0000
Subject: [PATCH 29/29] fix: ignore values with noncharacters, which fcitx5
 refuses

fcitx5 throws when it is given a noncharacter of Unicode (U+FFFF, for
example), just as it does for other text that it does not consider valid.
---
 src/Engine/McBopomofoLM.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/Engine/McBopomofoLM.cpp b/src/Engine/McBopomofoLM.cpp
index a4837a0..cc42fca 100644
--- a/src/Engine/McBopomofoLM.cpp
+++ b/src/Engine/McBopomofoLM.cpp
@@ -40,7 +40,31 @@ static constexpr double kMacroScore = -8.0;
 // Values come from files that anything may have happened to, and fcitx5 throws
 // when it is given text that is not valid UTF-8.
 static bool IsValidUTF8(const std::string& s) {
-  return SubstringToCodePoints(s, s.size()).size() == s.size();
+  if (SubstringToCodePoints(s, s.size()).size() != s.size()) {
+    return false;
+  }
+
+  // To fcitx5, the noncharacters of Unicode are not valid, either: U+FDD0 to
+  // U+FDEF, and the last two code points of every plane.
+  auto byteAt = [&s](size_t i) { return static_cast<unsigned char>(s[i]); };
+  // NOLINTBEGIN(readability-magic-numbers)
+  for (size_t i = 0; i + 2 < s.size(); ++i) {
+    unsigned char lead = byteAt(i);
+    if (lead == 0xef && byteAt(i + 1) == 0xb7 && byteAt(i + 2) >= 0x90 &&
+        byteAt(i + 2) <= 0xaf) {
+      return false;
+    }
+    bool endOfPlane = lead >= 0xf0 && (byteAt(i + 1) & 0x0f) == 0x0f &&
+                      byteAt(i + 2) == 0xbf && byteAt(i + 3) >= 0xbe;
+    if (lead == 0xef && byteAt(i + 1) == 0xbf && byteAt(i + 2) >= 0xbe) {
+      endOfPlane = true;
+    }
+    if (endOfPlane) {
+      return false;
+    }
+  }
+  // NOLINTEND(readability-magic-numbers)
+  return true;
 }
 
 void McBopomofoLM::loadLanguageModel(const char* languageModelDataPath) {
-- 
2.43.0

