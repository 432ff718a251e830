From dcb3e33b393b504ca0f26c4133321c8639113cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 01/74] fix: 8-bit float encoding of NaN payloads and of tiny
 negative values

A NaN with any payload but the default one was encoded as the largest value, and a negative value that
rounds to zero (or -0) was encoded as 0b10000000, which decodes as a positive number.
---
 src/types/quarter_float.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/types/quarter_float.hpp b/src/types/quarter_float.hpp
index 9f8a0cf..f256435 100644
--- a/src/types/quarter_float.hpp
+++ b/src/types/quarter_float.hpp
@@ -100,13 +100,19 @@ namespace happyml {
         const uint32_t prepped_bits = (sign << 7) | (clamped_exponent << 3) | (clamped_mantissa & 0x7);
         const uint32_t special_case_tiny =
                 encoded_value && (!prepped_bits && adjusted_exponent >= (-12 + bias)); // -5 rounds nearest
+        // 0b10000000 is reserved for the tiny positive value, so a negative number (or -0) must not encode to it:
+        // it becomes the smallest negative value or 0.
+        const uint32_t negative_tiny = prepped_bits == 0b10000000;
+        const uint32_t signed_bits = (!negative_tiny) * prepped_bits + (negative_tiny && !clamp_bottom) * 0b10000001;
         const uint32_t result_bits = (special_case_tiny) * 0b10000000 +
-                                     (!special_case_tiny) * prepped_bits;
+                                     (!special_case_tiny) * signed_bits;
+        // any exponent of all ones with a mantissa is not a number, whatever its payload.
+        const uint32_t is_nan = (encoded_value & 0x7FFFFFFF) > FLOAT_INF;
 
-        return (encoded_value == FLOAT_NEG_NAN || encoded_value == FLOAT_POS_NAN) * QUARTER_NAN +
+        return is_nan * QUARTER_NAN +
                (encoded_value == FLOAT_INF) * QUARTER_POS_INFINITY
                + (encoded_value == FLOAT_NEG_INF) * QUARTER_NEG_INFINITY +
-               ((encoded_value != FLOAT_NEG_NAN && encoded_value != FLOAT_POS_NAN) && (encoded_value != FLOAT_INF) &&
+               (!is_nan && (encoded_value != FLOAT_INF) &&
                 (encoded_value != FLOAT_NEG_INF)) *
                result_bits;
     }
-- 
2.43.0


From 64e166c0771dad3eb6ae2725ed6385244e1ccf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 02/74] fix: renormalise each dataset column with its own
 target metadata

---
 src/util/file_reader.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 68beaa9..ab4a634 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -266,19 +266,22 @@ namespace happyml {
                                                             renormalize_given_metadata_[given_offset]->mean, renormalize_given_metadata_[given_offset]->standard_deviation);
                 }
                 given_tensors.push_back(next_tensor);
+                given_offset++;
             }
             vector<shared_ptr<BaseTensor>> expected_tensors;
+            size_t expected_offset = 0;
             for (const auto &metadata: expected_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
                 if (!renormalize_expected_metadata_.empty()) {
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
-                                                            renormalize_expected_metadata_[given_offset]->is_normalized, renormalize_expected_metadata_[given_offset]->is_standardized,
-                                                            renormalize_expected_metadata_[given_offset]->min_value, renormalize_expected_metadata_[given_offset]->max_value,
-                                                            renormalize_expected_metadata_[given_offset]->mean, renormalize_expected_metadata_[given_offset]->standard_deviation);
+                                                            renormalize_expected_metadata_[expected_offset]->is_normalized, renormalize_expected_metadata_[expected_offset]->is_standardized,
+                                                            renormalize_expected_metadata_[expected_offset]->min_value, renormalize_expected_metadata_[expected_offset]->max_value,
+                                                            renormalize_expected_metadata_[expected_offset]->mean, renormalize_expected_metadata_[expected_offset]->standard_deviation);
                 }
                 expected_tensors.push_back(next_tensor);
+                expected_offset++;
             }
             return {given_tensors, expected_tensors};
         }
-- 
2.43.0


From 0c80ced0355b31a00da0ac40ffca187cf0de3d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:25 +0000
Subject: [PATCH 03/74] fix: text that only starts with a number is not a
 number

DelimitedTextFileWriter wrote such values without quoting or encoding, so a delimiter or quote inside them broke the record.
---
 src/training_data/data_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index f23d72d..0403239 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -64,7 +64,7 @@ namespace happyml {
     bool isFloat(const string &text) {
         float value = 0.0;
         auto [ptr, error_check] = std::from_chars(text.data(), text.data() + text.size(), value);
-        return error_check == std::errc();
+        return error_check == std::errc() && ptr == text.data() + text.size();
     }
 
     class HappyMLVariantEncoder {
-- 
2.43.0


From 5940c74c599e4d1450b36da3b5258978b98b6381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:25 +0000
Subject: [PATCH 04/74] fix: quotes that are part of a delimited value are
 unescaped only once

---
 src/util/file_reader.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index ab4a634..b0aebaa 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -182,15 +182,8 @@ namespace happyml {
         }
 
         string decode(string &current_word) const {
-            auto stripped_column = strip(current_word);
-            auto stripped_column_length = stripped_column.length();
-            if (stripped_column_length > 0 && stripped_column[0] == '"' &&
-                stripped_column[stripped_column_length - 1] == '"') {
-                stripped_column = stripped_column.substr(1, stripped_column_length - 2);
-            }
-            string_replace_all(stripped_column, "\"\"", "\"");
-            stripped_column = TextEncoderDecoder::decodeString(stripped_column, delimiter_);
-            return stripped_column;
+            // nextRecord() has already removed the enclosing quotes and un-doubled the quotes inside them.
+            return TextEncoderDecoder::decodeString(strip(current_word), delimiter_);
         }
 
     private:
-- 
2.43.0


From c2064476abbf580c9b22db8b569e86a6ded88531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 05/74] fix: an empty file in a directory no longer ends the
 reading of the files after it

---
 src/util/file_reader.hpp | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index b0aebaa..67926f7 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -71,27 +71,20 @@ namespace happyml {
                     next_line = "";
                 } else {
                     string line;
-                    if (getline(stream, line)) {
-                        next_line = line;
-                    } else {
+                    while (!getline(stream, line)) {
                         stream.close();
                         current_file++;
-                        if (current_file < filenames.size()) {
-                            stream.open(filenames[current_file]);
-                            if (skip_header) {
-                                skipHeader();
-                            }
-                            if (getline(stream, line)) {
-                                next_line = line;
-                            } else {
-                                has_next = false;
-                                next_line = "";
-                            }
-                        } else {
+                        if (current_file >= filenames.size()) {
                             has_next = false;
                             next_line = "";
+                            return result;
+                        }
+                        stream.open(filenames[current_file]);
+                        if (skip_header) {
+                            skipHeader();
                         }
                     }
+                    next_line = line;
                 }
             }
             return result;
@@ -104,9 +97,7 @@ namespace happyml {
     private:
         void skipHeader() {
             string line;
-            if (!stream.is_open() || !getline(stream, line)) {
-                has_next = false;
-            }
+            getline(stream, line);
         }
 
         vector<string> filenames;
-- 
2.43.0


From 8815b6b226f353104ec75fc408d71f2cb9144b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 06/74] fix: the word that ends a text cell is not repeated at
 the start of the next cell

---
 src/util/dataset_utils.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index c246212..025a90e 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -99,17 +99,22 @@ namespace happyml {
 
         int near_limit = character_limit * 4 / 5;
         bool write_cell;
+        bool token_written;
         while (std::getline(input_file, token, ' ')) {
             if (cell.length() + token.length() + 1 <= character_limit) {
                 cell += " " + token;
+                token_written = true;
                 auto token_len = token.length();
                 write_cell = (cell.length() > near_limit && token_len > 1 && (token[token_len - 1] == '.' || token[token_len - 2] == '.'));
             } else {
                 write_cell = true;
+                token_written = false;
             }
             if (write_cell) {
-                delimitedTextFileWriter.writeRecord({cell});
-                cell = token;
+                if (!cell.empty()) {
+                    delimitedTextFileWriter.writeRecord({cell});
+                }
+                cell = token_written ? "" : token;
             }
         }
 
-- 
2.43.0


From bf8aa5a176781f28704a47a845dd54592d2652b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 07/74] fix: column groups that share a single column overlap

---
 src/util/dataset_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 025a90e..c4ac4c9 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -31,7 +31,7 @@ namespace happyml {
 
             size_t prev_endIndex = prev->start_index_ + prev->source_column_count_ - 1;
 
-            if (prev_endIndex > curr->start_index_) {
+            if (prev_endIndex >= curr->start_index_) {
                 return true;
             }
         }
-- 
2.43.0


From 7d77afbad8d9f02a3dd5b1c953ffd923332b4c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 08/74] fix: a record with too few columns is refused instead
 of read past its end

---
 src/training_data/training_dataset.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index fac1120..487bc2f 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -342,6 +342,13 @@ namespace happyml {
         while (reader.hasNext()) {
             records_updated++;
             auto record = reader.nextRecord();
+            for (const auto &columns: {given_columns, expected_columns}) {
+                for (const auto &column: columns) {
+                    if (column->start_index_ + column->source_column_count_ > record.size()) {
+                        throw runtime_error("Record length is less than expected. Expected: " + to_string(column->start_index_ + column->source_column_count_) + " Actual: " + to_string(record.size()));
+                    }
+                }
+            }
             vector<string> new_record;
             for (const auto &column: given_columns) {
                 for (size_t i = 0; i < column->source_column_count_; i++) {
-- 
2.43.0


From d7a007b6ee1f4ce0ef15049ff87560c16167d84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 09/74] fix: normalizing a column of equal values gives zeros,
 not NaN

---
 src/types/tensor_views/normalize_tensor_view.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/types/tensor_views/normalize_tensor_view.hpp b/src/types/tensor_views/normalize_tensor_view.hpp
index 241a05e..6446735 100644
--- a/src/types/tensor_views/normalize_tensor_view.hpp
+++ b/src/types/tensor_views/normalize_tensor_view.hpp
@@ -27,6 +27,10 @@ namespace happyml {
 
         float getValue(size_t row, size_t column, size_t channel) override {
             const float val = child_->getValue(row, column, channel);
+            if (val_range_ == 0.0f) {
+                // every value is the same: there is no range to divide by.
+                return val - min_val_;
+            }
             return (val - min_val_) / val_range_;
         }
 
-- 
2.43.0


From 1bed0994a573745294322bf6c8f0e8495c25c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 10/74] fix: standardized columns are normalized over their
 standardized range

---
 src/util/dataset_utils.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index c4ac4c9..039387e 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -178,6 +178,14 @@ namespace happyml {
         return next_metadata;
     }
 
+    // values are standardized before they are normalized, so the range to normalize over is the standardized one.
+    void standardize_range(const shared_ptr<BinaryColumnMetadata> &metadata) {
+        if (metadata->is_standardized) {
+            metadata->min_value = (metadata->min_value - metadata->mean) / metadata->standard_deviation;
+            metadata->max_value = (metadata->max_value - metadata->mean) / metadata->standard_deviation;
+        }
+    }
+
     void normalize_and_standardize_dataset(const string &raw_binary_file,
                                            const string &dataset_path) {
 
@@ -244,6 +252,7 @@ namespace happyml {
                     given_metadata[i]->is_normalized = is_numeric_value;
                     given_metadata[i]->min_value = (float) given_standardization_values[i]->min_value;
                     given_metadata[i]->max_value = (float) given_standardization_values[i]->max_value;
+                    standardize_range(given_metadata[i]);
                 }
             }
             if (expected_has_numbers) {
@@ -255,6 +264,7 @@ namespace happyml {
                     expected_metadata[i]->is_normalized = is_numeric_value;
                     expected_metadata[i]->min_value = (float) expected_standardization_values[i]->min_value;
                     expected_metadata[i]->max_value = (float) expected_standardization_values[i]->max_value;
+                    standardize_range(expected_metadata[i]);
                 }
             }
         }
-- 
2.43.0


From 0a04ed55c72adef4fd0b9eba7d4bbd2320e1c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 11/74] fix: the source column count of a column reaches the
 finished dataset

---
 src/util/dataset_utils.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 039387e..5d53ac2 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -160,10 +160,12 @@ namespace happyml {
 
     shared_ptr<BinaryColumnMetadata> initialize_column_metadata(const vector<size_t> &dims,
                                                                 char purpose,
+                                                                uint64_t source_column_count,
                                                                 vector<string> ordered_labels,
                                                                 string name) {
         auto next_metadata = make_shared<BinaryColumnMetadata>();
         next_metadata->purpose = purpose;
+        next_metadata->source_column_count = source_column_count;
         next_metadata->rows = dims[0];
         next_metadata->columns = dims[1];
         next_metadata->channels = dims[2];
@@ -198,6 +200,7 @@ namespace happyml {
         for (int i = 0; i < given_count; ++i) {
             shared_ptr<BinaryColumnMetadata> next_metadata = initialize_column_metadata(binaryDatasetReader.getGivenTensorDims(i),
                                                                                         binaryDatasetReader.getGivenTensorPurpose(i),
+                                                                                        binaryDatasetReader.get_given_metadata(i)->source_column_count,
                                                                                         binaryDatasetReader.getGivenTensorOrderedLabels(i),
                                                                                         binaryDatasetReader.get_given_name(i));
             given_metadata.emplace_back(next_metadata);
@@ -213,6 +216,7 @@ namespace happyml {
         for (int i = 0; i < expected_count; ++i) {
             shared_ptr<BinaryColumnMetadata> next_metadata = initialize_column_metadata(binaryDatasetReader.getExpectedTensorDims(i),
                                                                                         binaryDatasetReader.getExpectedTensorPurpose(i),
+                                                                                        binaryDatasetReader.get_expected_metadata(i)->source_column_count,
                                                                                         binaryDatasetReader.getExpectedTensorOrderedLabels(i),
                                                                                         binaryDatasetReader.get_expected_name(i));
             expected_metadata.emplace_back(next_metadata);
-- 
2.43.0


From 9377f28010ab318e58bb75a82d80db3f5409b0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 12/74] fix: create dataset opens .tsv and .txt sources by
 their path

---
 src/lang/statements/create_dataset_statement.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index 8eda412..05b03a0 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -101,16 +101,17 @@ namespace happyml {
             string file_extension = location_.substr(last_period_offset + 1);
             auto index_of_start_of_file_name = location_.find("://") + 3;
             string base_file_path = location_.substr(index_of_start_of_file_name, last_period_offset - index_of_start_of_file_name);
+            string original_file_path = location_.substr(index_of_start_of_file_name);
             string current_location = base_file_path + ".csv";
             bool has_header = has_header_;
             if (file_extension == "txt") {
                 has_header = false;
-                if (!convert_txt_to_csv(location_, current_location, 4000)) {
+                if (!convert_txt_to_csv(original_file_path, current_location, 4000)) {
                     return make_shared<ExecutionResult>(false, false,
                                                         "Could not open source or destination file to convert text to csv.");
                 }
             } else if (file_extension == "tsv") {
-                if (!convert_tsv_to_csv(location_, current_location)) {
+                if (!convert_tsv_to_csv(original_file_path, current_location)) {
                     return make_shared<ExecutionResult>(false, false,
                                                         "Could not open source or destination file to convert tsv to csv.");
                 }
-- 
2.43.0


From 010bca8cd7ed400b24e87ada70349267505cad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 13/74] fix: a split of a dataset is drawn from the shuffled
 records

---
 src/training_data/training_dataset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index 487bc2f..916b1d1 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -136,8 +136,8 @@ namespace happyml {
             auto shuffled_offset = shuffler_ != nullptr ? shuffler_->getShuffledIndex(current_offset_) : current_offset_;
             // we have to shuffle an extra time because we are splitting the dataset and the original data may be ordered
             // we want our split to have a fair distribution of data. The split shuffler is never reshuffled.
-            auto split_shuffled_offset = split_shuffler_->getShuffledIndex(shuffled_offset);
-            auto pair = reader_.readRow(shuffled_offset + first_record_offset_);
+            auto split_shuffled_offset = split_shuffler_->getShuffledIndex(first_record_offset_ + shuffled_offset);
+            auto pair = reader_.readRow(split_shuffled_offset);
             current_offset_++;
             auto result = make_shared<TrainingPair>(pair.first, pair.second);
             return result;
-- 
2.43.0


From bf3b92a0aad689740a180f5e54b0b6bb365ca872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:14 +0000
Subject: [PATCH 14/74] fix: loading a byte pair model replaces its codes and
 restores the next code

---
 src/ml/byte_pair_encoder.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 1ed6c8e..b45abe8 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -556,7 +556,10 @@ namespace happyml {
 
             uint16_t delimiter_code = 0;
             file.read(reinterpret_cast<char *>(&delimiter_code), sizeof(delimiter_code));
+            // set delimiter code first because it resets next_code_
             setDelimiterCode(delimiter_code);
+            // what is loaded replaces whatever this model knew before
+            ordered_bpe_codes_.clear();
 
             while (!file.eof()) {
                 pair<u16string, u16string> code_pair;
@@ -574,6 +577,9 @@ namespace happyml {
                 }
 
                 if (!file.eof()) {
+                    uint16_t const next = std::max(find_max_16bit_value(code_pair.first),
+                                                   find_max_16bit_value(code_pair.second)) + 1;
+                    next_code_ = std::max(next, next_code_);
                     ordered_bpe_codes_.push_back(std::move(code_pair));
                 }
             }
-- 
2.43.0


From bb59c736064005d17fb0c221f17b8a5595f45963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:14 +0000
Subject: [PATCH 15/74] fix: an empty token no longer makes byte pair training
 read past its end

---
 src/ml/byte_pair_encoder.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index b45abe8..841b35f 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -451,7 +451,7 @@ namespace happyml {
                 // in a more compact vocabulary the second call to train()
                 // It LOOKS like it works, which is why I'm leaving it in.
                 u16string line16 = encode(token);
-                for (size_t i = 0; i < line16.size() - 1; ++i) {
+                for (size_t i = 0; i + 1 < line16.size(); ++i) {
                     u16string const pair = u16string(1, line16[i]) + u16string(1, line16[i + 1]);
                     // If the character pair is already in the vocab unordered_map, increment its frequency; otherwise, add it to the vocab unordered_map with a frequency of 1.
                     auto exiting_entry = vocab.find(
@@ -625,7 +625,7 @@ namespace happyml {
                     char c = buffer[i];
                     append_character(c, last_char, token, [&vocab, this](const std::string &new_token) {
                         u16string line16 = this->encode(new_token);
-                        for (size_t i = 0; i < line16.size() - 1; ++i) {
+                        for (size_t i = 0; i + 1 < line16.size(); ++i) {
                             u16string const pair = u16string(1, line16[i]) + u16string(1, line16[i + 1]);
                             auto existing_entry = vocab.find(pair);
                             if (existing_entry != vocab.end()) {
@@ -641,7 +641,7 @@ namespace happyml {
             // Process any remaining data after the buffer read
             if (!token.empty()) {
                 u16string line16 = encode(token);
-                for (size_t i = 0; i < line16.size() - 1; ++i) {
+                for (size_t i = 0; i + 1 < line16.size(); ++i) {
                     u16string const pair = u16string(1, line16[i]) + u16string(1, line16[i + 1]);
                     auto existing_entry = vocab.find(pair);
                     if (existing_entry != vocab.end()) {
-- 
2.43.0


From 4d8df357ff087283e7bf34e914606d520fe78e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:31 +0000
Subject: [PATCH 16/74] fix: a byte pair code equal to the largest code is not
 written past the one-hot vector

---
 src/util/one_hot_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/one_hot_encoder.hpp b/src/util/one_hot_encoder.hpp
index 0caf61a..30ff25e 100644
--- a/src/util/one_hot_encoder.hpp
+++ b/src/util/one_hot_encoder.hpp
@@ -39,7 +39,7 @@ namespace happyml {
         for (const auto &token: tokens) {
             for (const auto &c: token) {
                 vector<float> encoded_chars(largest_bpe_code, 0.0);
-                if (c <= largest_bpe_code) {
+                if (c < largest_bpe_code) {
                     encoded_chars[c] = 1.0;
                 }
                 encoded_tokens.push_back(encoded_chars);
-- 
2.43.0


From 5569a54c871a8a58d9b0ab9fc6255310c210d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:31 +0000
Subject: [PATCH 17/74] fix: one-hot encoding of non-ASCII characters stays
 inside its vector

---
 src/util/one_hot_encoder.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/one_hot_encoder.hpp b/src/util/one_hot_encoder.hpp
index 30ff25e..333511d 100644
--- a/src/util/one_hot_encoder.hpp
+++ b/src/util/one_hot_encoder.hpp
@@ -56,7 +56,10 @@ namespace happyml {
         for (const auto &token: tokens) {
             for (const auto &c: token) {
                 vector<float> encoded_chars(255, 0.0);
-                encoded_chars[c] = 1.0;
+                auto const index = (unsigned char) c; // char may be signed
+                if (index < encoded_chars.size()) {
+                    encoded_chars[index] = 1.0;
+                }
                 encoded_tokens.push_back(encoded_chars);
             }
         }
-- 
2.43.0


From 1868fc457bbac4048968437978ae4e2936eba9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:31 +0000
Subject: [PATCH 18/74] fix: decoding the top categories refuses an index
 without a label

---
 src/training_data/data_decoder.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/training_data/data_decoder.hpp b/src/training_data/data_decoder.hpp
index a3ed2d9..285527a 100644
--- a/src/training_data/data_decoder.hpp
+++ b/src/training_data/data_decoder.hpp
@@ -128,6 +128,10 @@ namespace happyml {
             vector<string> result;
             result.reserve(categoryIndex.size());
             for (const auto &index: categoryIndex) {
+                if (index.getIndex() >= categoryLabels_.size()) {
+                    string message = "Category index out of bounds: " + to_string(index.getIndex());
+                    throw runtime_error(message);
+                }
                 result.push_back(categoryLabels_[index.getIndex()]);
             }
             return result;
-- 
2.43.0


From 8730488a2be6c5a8100aac814d80a148c56c56cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:31 +0000
Subject: [PATCH 19/74] fix: decoded images average their rows and channels
 only once

---
 src/training_data/data_decoder.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/training_data/data_decoder.hpp b/src/training_data/data_decoder.hpp
index 285527a..d1db182 100644
--- a/src/training_data/data_decoder.hpp
+++ b/src/training_data/data_decoder.hpp
@@ -193,7 +193,6 @@ namespace happyml {
                             grayScale /= 2.0f;
                         }
                     }
-                    grayScale /= (float) (channels * (row + 1 < rows ? 2 : 1));
                     // Normalize the grayscale value to range [0, 1]
                     grayScale = (grayScale < 0.0f) ? 0.0f : ((grayScale > 1.0f) ? 1.0f : grayScale);
                     largest_value = max(largest_value, grayScale);
-- 
2.43.0


From ffc50be1b6366b8bc923189cd92ace35349b0348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:31 +0000
Subject: [PATCH 20/74] fix: task inputs are encoded with the layout and scale
 of the dataset

---
 src/training_data/data_encoder.hpp | 75 ++++++++++++++----------------
 1 file changed, 36 insertions(+), 39 deletions(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index 0403239..4c67bce 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -78,33 +78,12 @@ namespace happyml {
         std::shared_ptr<BaseTensor> encode(const std::vector<HappyMLVariant> &text) {
             // purpose: 'I' (image), 'T' (text), 'N' (number), 'L' (label)
             if (metadata->purpose == 'I') {
-                std::vector<std::vector<std::vector<float>>> floats;
-                floats.resize(metadata->channels);
-                for (size_t channel = 0; channel < metadata->channels; channel++) {
-                    floats[channel].resize(metadata->columns);
-                    for (size_t column = 0; column < metadata->columns; column++) {
-                        floats[channel][column].resize(metadata->rows);
-                        for (size_t row = 0; row < metadata->rows; row++) {
-                            floats[channel][column][row] = text[channel * metadata->columns * metadata->rows + column * metadata->rows + row].as_float();
-                        }
-                    }
-                }
-                return pixelTensor(floats);
+                // we store the value as percentage of 255, as TextToPixelEncoder does.
+                return pixelTensor(to_floats(text, 255.f));
             } else if (metadata->purpose == 'T') {
                 throw runtime_error("Text encoding not implemented yet.");
             } else if (metadata->purpose == 'N') {
-                std::vector<std::vector<std::vector<float>>> floats;
-                floats.resize(metadata->channels);
-                for (size_t channel = 0; channel < metadata->channels; channel++) {
-                    floats[channel].resize(metadata->columns);
-                    for (size_t column = 0; column < metadata->columns; column++) {
-                        floats[channel][column].resize(metadata->rows);
-                        for (size_t row = 0; row < metadata->rows; row++) {
-                            floats[channel][column][row] = text[channel * metadata->columns * metadata->rows + column * metadata->rows + row].as_float();
-                        }
-                    }
-                }
-                std::shared_ptr<BaseTensor> base_tensor = tensor(floats);
+                std::shared_ptr<BaseTensor> base_tensor = tensor(to_floats(text, 1.f));
                 if (metadata->is_standardized) {
                     base_tensor = make_shared<StandardizeTensorView>(base_tensor, metadata->mean, metadata->standard_deviation);
                 }
@@ -113,7 +92,10 @@ namespace happyml {
                 }
                 return base_tensor;
             } else if (metadata->purpose == 'L') {
-                for (const auto &next_text: text) {
+                check_value_count(text, metadata->rows);
+                vector<vector<vector<float>>> result(1, vector<vector<float>>(metadata->rows, vector<float>(metadata->columns, 0.f)));
+                for (size_t row = 0; row < metadata->rows; row++) {
+                    const auto &next_text = text[row];
                     size_t column_offset = 0;
                     bool found = false;
                     for (size_t i = 0; i < metadata->ordered_labels.size(); i++) {
@@ -123,24 +105,13 @@ namespace happyml {
                             break;
                         }
                     }
-                    if (!found) {
+                    if (!found || column_offset >= metadata->columns) {
                         string error_message = "Unknown label " + next_text.to_string() + " for column: " + metadata->name;
                         throw runtime_error(error_message);
                     }
-                    vector<vector<vector<float>>> result;
-                    result.resize(metadata->channels);
-                    for (size_t channel = 0; channel < metadata->channels; channel++) {
-                        result[channel].resize(metadata->columns);
-                        for (size_t column = 0; column < metadata->columns; column++) {
-                            result[channel][column].resize(metadata->rows);
-                            for (size_t row = 0; row < metadata->rows; row++) {
-                                result[channel][column][row] = column == column_offset ? 1.f : 0.f;
-                            }
-                        }
-                    }
-
-                    return tensor(result);
+                    result[0][row][column_offset] = 1.f;
                 }
+                return tensor(result);
             }
             string error_message = "Unknown purpose " + string(1, metadata->purpose) + " for column: " + metadata->name;
             throw runtime_error(error_message);
@@ -148,6 +119,32 @@ namespace happyml {
 
     private:
         shared_ptr<BinaryColumnMetadata> metadata;
+
+        void check_value_count(const std::vector<HappyMLVariant> &text, size_t expected) {
+            if (text.size() != expected) {
+                string error_message = "Expected " + to_string(expected) + " values but got " + to_string(text.size()) + " for column: " + metadata->name;
+                throw runtime_error(error_message);
+            }
+        }
+
+        // the values fill the channels row by row, in the same order as a record of a dataset.
+        std::vector<std::vector<std::vector<float>>> to_floats(const std::vector<HappyMLVariant> &text, float divisor) {
+            check_value_count(text, metadata->channels * metadata->rows * metadata->columns);
+            std::vector<std::vector<std::vector<float>>> floats;
+            size_t offset = 0;
+            floats.resize(metadata->channels);
+            for (size_t channel = 0; channel < metadata->channels; channel++) {
+                floats[channel].resize(metadata->rows);
+                for (size_t row = 0; row < metadata->rows; row++) {
+                    floats[channel][row].resize(metadata->columns);
+                    for (size_t column = 0; column < metadata->columns; column++) {
+                        floats[channel][row][column] = text[offset].as_float() / divisor;
+                        offset++;
+                    }
+                }
+            }
+            return floats;
+        }
     };
 
     class DataEncoder {
-- 
2.43.0


From 4c1e5c11a483faa4af5f97072bcd41ea32b2eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:31 +0000
Subject: [PATCH 21/74] fix: text that only starts with a number is refused as
 a number

---
 src/training_data/data_encoder.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index 4c67bce..39fc919 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -48,7 +48,11 @@ namespace happyml {
         float value = 0.0f;
         if (!text.empty()) {
             auto [ptr, error_check] = std::from_chars(text.data(), text.data() + text.size(), value);
-            if (error_check != std::errc()) {
+            // blanks may follow the number, anything else means that the text isn't a number
+            bool const only_number = std::all_of(ptr, text.data() + text.size(), [](unsigned char ch) {
+                return std::isspace(ch);
+            });
+            if (error_check != std::errc() || !only_number) {
                 string message = "Couldn't convert text to float: " + text;
                 throw runtime_error(message.c_str());
             }
-- 
2.43.0


From 844a8c51e7974196e391e2d696fd63f3e3bed7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:31 +0000
Subject: [PATCH 22/74] fix: getRowValues reads the channel asked for

---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index aa54f1b..ba05a07 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -203,7 +203,7 @@ namespace happyml {
             vector<float> nextRow;
             size_t columnCount1 = columnCount();
             for (size_t col = 0; col < columnCount1; col++) {
-                nextRow.push_back(getValue(row, col, 0));
+                nextRow.push_back(getValue(row, col, channel));
             }
             return nextRow;
         }
-- 
2.43.0


From a1d07f50f3e62c573b11f3867a688b0f66ccebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:22 +0000
Subject: [PATCH 23/74] fix: a malformed statement is a parse error, not an
 escaping exception

---
 src/lang/parser/parser.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index b3631b5..7dc32f3 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -35,7 +35,16 @@ namespace happyml {
 
             // cout << "Lexer: " << lexResult->getMessage() << endl << lexResult->getMatchStream()->render() << endl;
             // then build parsed result.
-            return parseCodeBlock(lexResult->getMatchStream());
+            auto stream = lexResult->getMatchStream();
+            try {
+                return parseCodeBlock(stream);
+            } catch (const exception &e) {
+                // a statement that ends too early or a number out of range
+                if (!stream->previous()) {
+                    return make_shared<ParseResult>(string("Malformed statement: ") + e.what(), false);
+                }
+                return generateError(string("Malformed statement: ") + e.what() + " at: ", stream->previous());
+            }
         }
 
     private:
-- 
2.43.0


From d81b1c5ad1ca137174f65d8399614af385681168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:22 +0000
Subject: [PATCH 24/74] fix: help does not swallow the statement on the next
 line

---
 src/lang/parser/parser.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 7dc32f3..6ed2c52 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -56,8 +56,12 @@ namespace happyml {
             return make_shared<ParseResult>(error_message.str(), false);
         }
 
+        static bool isStatementStart(const string &label) {
+            return "_help" == label || "_print" == label || "_create" == label || "_execute" == label || "_exit" == label;
+        }
+
         static shared_ptr<ParseResult> parseHelpStatement(const shared_ptr<TokenStream> &stream) {
-            if (!stream->hasNext()) {
+            if (!stream->hasNext() || isStatementStart(stream->peek()->getLabel())) {
                 return make_shared<ParseResult>(make_shared<HelpStatement>());
             }
             auto next = stream->next();
-- 
2.43.0


From 06235bf4c2c3694cad9b43caca07d34235d5e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:22 +0000
Subject: [PATCH 25/74] fix: keywords are recognised in any case by the parser
 too

---
 src/lang/parser/parser.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 6ed2c52..798412e 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -65,7 +65,7 @@ namespace happyml {
                 return make_shared<ParseResult>(make_shared<HelpStatement>());
             }
             auto next = stream->next();
-            return make_shared<ParseResult>(make_shared<HelpStatement>(next->getValue()));
+            return make_shared<ParseResult>(make_shared<HelpStatement>(asLower(next->getValue())));
         }
 
         static shared_ptr<ParseResult> parsePrintStatement(const shared_ptr<TokenStream> &stream) {
@@ -73,10 +73,10 @@ namespace happyml {
                 return generateError("usage: print <raw|pretty> <name> [limit <x>]", stream->previous());
             }
             auto next = stream->next();
-            if ("raw" != next->getValue() && "pretty" != next->getValue()) {
+            if ("_raw" != next->getLabel() && "_pretty" != next->getLabel()) {
                 return generateError("usage: print <raw|pretty> <name> [limit <x>]", stream->previous());
             }
-            bool raw = "raw" == next->getValue();
+            bool raw = "_raw" == next->getLabel();
             next = stream->next();
             auto dataset_name = next->getValue();
             if (!stream->hasNext() || "_limit" != stream->peek()->getLabel()) {
@@ -106,7 +106,7 @@ namespace happyml {
             if (!stream->hasNext()) {
                 return generateError("with statement data type missing ", stream->previous());
             }
-            columnGroup->data_type_ = stream->next()->getValue();
+            columnGroup->data_type_ = asLower(stream->next()->getValue());
             if (!stream->hasNext()) {
                 return generateError("with statement label missing ", stream->previous());
             }
@@ -207,16 +207,16 @@ namespace happyml {
                         return generateError("create task with statement malformed: ", next);
                     }
                     auto parameterToken = stream->next();
-                    if ("test" == parameterToken->getValue()) {
+                    if ("_test" == parameterToken->getLabel()) {
                         if (!stream->hasNext()) {
                             return generateError("create task with statement malformed: ", parameterToken);
                         }
                         test_dataset_name = stream->next()->getValue();
-                    } else if ("goal" == parameterToken->getValue()) {
+                    } else if ("_goal" == parameterToken->getLabel()) {
                         if (!stream->hasNext()) {
                             return generateError("create task with statement malformed: ", parameterToken);
                         }
-                        goal = stream->next()->getValue();
+                        goal = asLower(stream->next()->getValue());
                     } else {
                         return generateError("create task with statement malformed: ", parameterToken);
                     }
@@ -229,7 +229,7 @@ namespace happyml {
                     return generateError("create task using statement malformed: ", usingToken);
                 }
                 auto datasetName = stream->next();
-                auto createTaskResult = make_shared<CreateTaskStatement>(taskType->getValue(),
+                auto createTaskResult = make_shared<CreateTaskStatement>(asLower(taskType->getValue()),
                                                                          taskName->getValue(),
                                                                          goal,
                                                                          datasetName->getValue(),
@@ -268,7 +268,7 @@ namespace happyml {
                     if (!stream->hasNext()) {
                         return generateError("with statement is incomplete ", stream->previous());
                     }
-                    string withType = stream->next()->getValue();
+                    string withType = asLower(stream->next()->getValue());
                     if ("header" == withType) {
                         has_header = true;
                     } else {
-- 
2.43.0


From c317476782ddc632393042ca4b39dd5a6b83d0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:22 +0000
Subject: [PATCH 26/74] fix: nothing runs after an exit statement

---
 src/lang/statements/code_block_statement.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lang/statements/code_block_statement.hpp b/src/lang/statements/code_block_statement.hpp
index 2f03fcd..67690c4 100644
--- a/src/lang/statements/code_block_statement.hpp
+++ b/src/lang/statements/code_block_statement.hpp
@@ -24,7 +24,8 @@ namespace happyml {
                 lastResult = child->execute(context);
                 // We are discarding all results but the last one. This is fine for handling errors, but
                 // I'm not sure if we should use them for anything. I don't need them now, so this is fine.
-                if (!lastResult->isSuccessful()) {
+                // Nothing runs after an exit either.
+                if (!lastResult->isSuccessful() || lastResult->exitRequested()) {
                     break;
                 }
             }
-- 
2.43.0


From 0bb950ac1a0d048fd264d524cf613053496a3bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:22 +0000
Subject: [PATCH 27/74] fix: an empty line is not read before its start

---
 src/lang/interpreter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 48d35d3..5a202fa 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -75,7 +75,7 @@ namespace happyml {
             cout << "> ";
             while (std::getline(std::cin, nextLine)) {
                 nextLine = trimEnd(nextLine);
-                if (nextLine.back() == '\\') {
+                if (!nextLine.empty() && nextLine.back() == '\\') {
                     // Remove the backslash and add the line to the buffer
                     nextLine.pop_back();
                     fullLine += nextLine + '\n';
-- 
2.43.0


From b9630401b076a9d83b8312d722917f5b6638a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:22 +0000
Subject: [PATCH 28/74] fix: a script that cannot be opened is reported

---
 src/lang/interpreter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 5a202fa..0f89411 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -50,6 +50,9 @@ namespace happyml {
             try {
                 ifstream stream;
                 stream.open(filePath, ifstream::in);
+                if (!stream.is_open()) {
+                    throw ifstream::failure("File not found: " + filePath);
+                }
                 stringstream fullText;
                 fullText << stream.rdbuf();
                 try {
-- 
2.43.0


From 7f2062fda7bb84d41316b58d9138cf03862441a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:24 +0000
Subject: [PATCH 29/74] fix: using a dataset that does not exist is reported
 instead of ending the session

---
 src/lang/statements/execute_task_statement.hpp | 3 +++
 src/lang/statements/print_statement.hpp        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/lang/statements/execute_task_statement.hpp b/src/lang/statements/execute_task_statement.hpp
index f110cf6..f946c93 100644
--- a/src/lang/statements/execute_task_statement.hpp
+++ b/src/lang/statements/execute_task_statement.hpp
@@ -39,6 +39,9 @@ namespace happyml {
                     string message = "Failed to execute task " + task_name_ + " because no input or dataset was provided.";
                     return make_shared<ExecutionResult>(false, false, message);
                 }
+                if (!context->dataset_exists(dataset_name_)) {
+                    return make_shared<ExecutionResult>(false, false, "Dataset " + dataset_name_ + " does not exist.");
+                }
                 if (!execute_task_with_dataset(task_name_, dataset_path, task_folder_path)) {
                     string message = "Failed to execute task " + task_name_;
                     return make_shared<ExecutionResult>(false, false, message);
diff --git a/src/lang/statements/print_statement.hpp b/src/lang/statements/print_statement.hpp
index 247465e..7c3397b 100644
--- a/src/lang/statements/print_statement.hpp
+++ b/src/lang/statements/print_statement.hpp
@@ -22,6 +22,9 @@ namespace happyml {
         }
 
         shared_ptr<ExecutionResult> execute(const shared_ptr<ExecutionContext> &context) override {
+            if (!context->dataset_exists(dataset_name_)) {
+                return make_shared<ExecutionResult>(false, false, "Dataset " + dataset_name_ + " does not exist.");
+            }
             string result_path = context->get_dataset_path(dataset_name_) + "/dataset.bin";
             BinaryDatasetReader reader(result_path);
             pretty_print(cout, reader, limit_, raw_);
-- 
2.43.0


From 17b2701394e266a5cc2e2640ff548d184cc160c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:24 +0000
Subject: [PATCH 30/74] fix: a task executed with a dataset uses the scale and
 labels it was trained with

---
 src/util/task_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 3cc1929..5ee2a54 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -179,7 +179,8 @@ namespace happyml {
                                                                 task_folder_path);
 
         string dataset_full_file_path = dataset_file_path + "/dataset.bin";
-        BinaryDatasetReader reader(dataset_full_file_path);
+        // the model knows the scale and labels of the dataset it was trained with, not of this one
+        BinaryDatasetReader reader(task_full_path + "/dataset.bin");
         vector<shared_ptr<RawDecoder>> given_decoders = build_given_decoders(false, reader);
         vector<shared_ptr<RawDecoder>> expected_decoders = build_expected_decoders(false, reader);
         vector<string> given_column_names = reader.get_given_names();
-- 
2.43.0


From 1e384f64a715c2eec64611e555b951ce6c511486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:15 +0000
Subject: [PATCH 31/74] fix: a three tensor view keeps its third tensor

---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index ba05a07..a4ff99d 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -737,7 +737,7 @@ namespace happyml {
                                                const shared_ptr<BaseTensor> &tensor3) {
             this->left_child_ = tensor1;
             this->middle_child_ = tensor2;
-            this->right_child_ = tensor2;
+            this->right_child_ = tensor3;
         }
 
         bool contains(const shared_ptr<BaseTensor> &other) override {
-- 
2.43.0


From 06b87e5b36eb113a91d15c1dc8a217e9d1f31198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:15 +0000
Subject: [PATCH 32/74] fix: the euclidean norm of a zero tensor is zero

---
 src/types/base_tensors.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index a4ff99d..fb60a2d 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -452,6 +452,9 @@ namespace happyml {
             const size_t cols = columnCount();
             const size_t maxChannels = channelCount();
             auto max_abs_val = (double) max_abs();
+            if (max_abs_val == 0) {
+                return 0.0f;
+            }
             for (size_t channel = 0; channel < maxChannels; channel++) {
                 for (size_t row = 0; row < rows; row++) {
                     for (size_t col = 0; col < cols; col++) {
-- 
2.43.0


From 58d30335664841d41fd100452f429bbc5284b689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:15 +0000
Subject: [PATCH 33/74] fix: standardizing a tensor uses its mean and deviation

---
 src/types/tensor_views/standardize_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/standardize_tensor_view.hpp b/src/types/tensor_views/standardize_tensor_view.hpp
index cadb636..6b67367 100644
--- a/src/types/tensor_views/standardize_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_tensor_view.hpp
@@ -19,7 +19,7 @@ namespace happyml {
             for (size_t element = 0; element < total_elements; ++element) {
                 double value = tensor->getValue(element);
                 double delta = value - mean;
-                mean += delta / total_elements;
+                mean += delta / (double) (element + 1);
                 double delta2 = value - mean;
                 M2 += delta * delta2;
             }
-- 
2.43.0


From 7d6166a540e79fc316e6db9c43ede3905b7fbbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:15 +0000
Subject: [PATCH 34/74] fix: a full cross correlation pads by the kernel size
 less one

---
 .../full_2d_cross_correlation_tensor_view.hpp        | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp b/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
index 4e5fae2..b636261 100644
--- a/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
+++ b/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
@@ -25,14 +25,10 @@ namespace happyml {
         Full2DCrossCorrelationTensorView(const shared_ptr<BaseTensor> &tensor, const shared_ptr<BaseTensor> &kernel)
                 : Valid2DCrossCorrelationTensorView(
                 make_shared<ZeroPadTensorView>(tensor,
-                                                           (kernel->rowCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->rowCount()) / 2.0),
-                                                           (kernel->rowCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->rowCount()) / 2.0),
-                                                           (kernel->columnCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->columnCount()) / 2.0),
-                                                           (kernel->columnCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->columnCount()) / 2.0)),
+                                                           kernel->rowCount() - 1,
+                                                           kernel->rowCount() - 1,
+                                                           kernel->columnCount() - 1,
+                                                           kernel->columnCount() - 1),
                 kernel) {
         }
 
-- 
2.43.0


From f6e604c7bdfe49dce61a32f4e21808e1f851f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:15 +0000
Subject: [PATCH 35/74] fix: matrix division multiplies by the columns of the
 inverse

---
 src/types/tensor_views/matrix_divide_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/matrix_divide_tensor_view.hpp b/src/types/tensor_views/matrix_divide_tensor_view.hpp
index 58b177a..491e642 100644
--- a/src/types/tensor_views/matrix_divide_tensor_view.hpp
+++ b/src/types/tensor_views/matrix_divide_tensor_view.hpp
@@ -49,7 +49,7 @@ namespace happyml {
             // Compute the inverse of the right_child_ matrix for the given row, column, channel
             float val = 0;
             for (size_t col = 0; col < left_child_->columnCount(); col++) {
-                val += left_child_->getValue(row, col, channel) * right_child_->getValue(row, col, channel);
+                val += left_child_->getValue(row, col, channel) * right_child_->getValue(col, column, channel);
             }
             return val;
         }
-- 
2.43.0


From 1b9b65b0b54bd321ea1a5d1d026ba57d2b7ad568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:15 +0000
Subject: [PATCH 36/74] fix: a diagonal tensor carries every element of its
 source

---
 src/types/tensor_views/diagonal_tensor_view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/tensor_views/diagonal_tensor_view.hpp b/src/types/tensor_views/diagonal_tensor_view.hpp
index 8eb1c4b..8f962a5 100644
--- a/src/types/tensor_views/diagonal_tensor_view.hpp
+++ b/src/types/tensor_views/diagonal_tensor_view.hpp
@@ -55,8 +55,8 @@ namespace happyml {
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
-            if (row == column && row < child_->rowCount() && column < child_->columnCount() && channel < child_->channelCount()) {
-                return child_->getValue(row, column, channel);
+            if (row == column && row < dim && channel < child_->channelCount()) {
+                return child_->getValue(row / child_->columnCount(), row % child_->columnCount(), channel);
             }
             return 0.f;
         }
-- 
2.43.0


From 0acdd62085401460cd997f16850e3940b1cad188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:15 +0000
Subject: [PATCH 37/74] fix: a kernel larger than its tensor is rejected

---
 .../tensor_views/valid_2d_cross_correlation_tensor_view.hpp   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp b/src/types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp
index 92c47a2..97132a8 100644
--- a/src/types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp
+++ b/src/types/tensor_views/valid_2d_cross_correlation_tensor_view.hpp
@@ -13,6 +13,10 @@ namespace happyml {
     public:
         Valid2DCrossCorrelationTensorView(const shared_ptr<BaseTensor> &tensor, const shared_ptr<BaseTensor> &kernel)
                 : BaseTensorBinaryOperatorView(tensor, kernel) {
+            if (right_child_->rowCount() > left_child_->rowCount() ||
+                right_child_->columnCount() > left_child_->columnCount()) {
+                throw runtime_error("The kernel must not be larger than the tensor.");
+            }
             rows = left_child_->rowCount() - right_child_->rowCount() + 1;
             cols = left_child_->columnCount() - right_child_->columnCount() + 1;
         }
-- 
2.43.0


From 5c0d57cf92b7e9bb8640b3cc67177b984a2629a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:25 +0000
Subject: [PATCH 38/74] fix: inverting a matrix that is not square is reported

---
 src/types/tensor_views/inverse_tensor_view.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/tensor_views/inverse_tensor_view.hpp b/src/types/tensor_views/inverse_tensor_view.hpp
index 5359561..b09d339 100644
--- a/src/types/tensor_views/inverse_tensor_view.hpp
+++ b/src/types/tensor_views/inverse_tensor_view.hpp
@@ -12,6 +12,9 @@ namespace happyml {
 
     // Helper function to compute the inverse of a matrix using the Gauss-Jordan elimination method
     shared_ptr<BaseTensor> inverse_tensor(const shared_ptr<BaseTensor> &tensor) {
+        if (tensor->rowCount() != tensor->columnCount()) {
+            throw runtime_error("Only a square matrix is invertible");
+        }
         vector<vector<vector<float>>> result;
         for (size_t channel = 0; channel < tensor->channelCount(); channel++) {
             // Create a matrix from the tensor (only one channel
-- 
2.43.0


From 0ecc26ba0c97850f71c00897d3b9a265486be3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 39/74] fix: the derivative of the mean absolute error is the
 sign of the error

---
 src/ml/losses/mae_loss.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ml/losses/mae_loss.hpp b/src/ml/losses/mae_loss.hpp
index c872257..b4f4181 100644
--- a/src/ml/losses/mae_loss.hpp
+++ b/src/ml/losses/mae_loss.hpp
@@ -32,7 +32,9 @@ namespace happyml {
             shared_ptr<BaseTensor> accumulatedLossDerivative;
             // Derivative of mean absolute error = sign(prediction_i - truth_i)
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
-            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ValueTransformTensorView>(error_diff, [](float diff) {
+                return (float) (diff > 0.0f) - (float) (diff < 0.0f);
+            });
             return currentLossDerivative;
         }
     };
-- 
2.43.0


From 81105b0a54aab72eaad5c26482edffc7f17dce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 40/74] fix: the derivative of a large smooth absolute error is
 the sign of the error

---
 src/ml/losses/smae_loss.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ml/losses/smae_loss.hpp b/src/ml/losses/smae_loss.hpp
index b1074c5..27e34df 100644
--- a/src/ml/losses/smae_loss.hpp
+++ b/src/ml/losses/smae_loss.hpp
@@ -51,7 +51,9 @@ namespace happyml {
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
             shared_ptr<BaseTensor> abs_error_diff = make_shared<AbsoluteTensorView>(error_diff);
             shared_ptr<BaseTensor> smooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, 1.0f / smoothness);
-            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ValueTransformTensorView>(error_diff, [](float diff) {
+                return (float) (diff > 0.0f) - (float) (diff < 0.0f);
+            });
 
             shared_ptr<BaseTensor> smooth_mask = make_shared<LessThanScalarTensorView>(abs_error_diff, smoothness);
             shared_ptr<BaseTensor> currentLossDerivative = make_shared<MaskedSelectTensorView>(smooth_mask, smooth_derivative, unsmooth_derivative);
-- 
2.43.0


From a9b29bad3eeb2ac06fe367ac116faac1b9da3398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 41/74] fix: no branch counts twice in the average error of a
 shared layer

---
 src/ml/neural_network_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index dc2d625..8374e70 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -244,7 +244,7 @@ namespace happyml {
                             break;
                         }
                         if (sum == nullptr) {
-                            sum = make_shared<AddTensorView>(prior_error, output_conn->prior_error);
+                            sum = output_conn->prior_error;
                         } else {
                             sum = make_shared<AddTensorView>(sum, output_conn->prior_error);
                         }
-- 
2.43.0


From f4fe72e5791ab8ea41f4e324f090138c91fec5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 42/74] fix: a layer with several outputs applies its changes
 once

---
 src/ml/neural_network.hpp      | 3 ++-
 src/ml/neural_network_node.hpp | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 0eb9e58..1f68fe6 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -488,8 +488,9 @@ namespace happyml {
                     nextRecord = trainingDataset->nextRecord();
                     if (batchOffset >= batchSize || nextRecord == nullptr) {
                         size_t currentBatch = ceil(current_record / batchSize);
+                        std::unordered_set<void *> applied;
                         for (size_t outputIndex = 0; outputIndex < outputSize; outputIndex++) {
-                            outputNodes[outputIndex]->apply(optimizer);
+                            outputNodes[outputIndex]->apply(optimizer, applied);
                         }
                         batchLoss /= (float) batchOffset;
                         epochTrainingLoss += (batchLoss - epochTrainingLoss) / (float) currentBatch;
diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index 8374e70..3291694 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -183,12 +183,16 @@ namespace happyml {
             return clipped;
         }
 
-        void apply(const shared_ptr<BaseOptimizer> &optimizer) {
+        void apply(const shared_ptr<BaseOptimizer> &optimizer, std::unordered_set<void *> &visited) {
+            if (!visited.insert((void *) this).second) {
+                // reached before, through another of our outputs
+                return;
+            }
             neuralNetworkFunction->apply(optimizer);
             for (const auto &inputConnection: connectionInputs) {
                 const auto conn = inputConnection.lock();
                 const auto from = conn->from.lock();
-                from->apply(optimizer);
+                from->apply(optimizer, visited);
             }
             saved = false;
         }
-- 
2.43.0


From e0e75089e30063b1f1d04047689a9afe15705974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 43/74] fix: a last, smaller batch counts as a batch of its own
 in the epoch loss

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 1f68fe6..761263c 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -487,7 +487,7 @@ namespace happyml {
 
                     nextRecord = trainingDataset->nextRecord();
                     if (batchOffset >= batchSize || nextRecord == nullptr) {
-                        size_t currentBatch = ceil(current_record / batchSize);
+                        size_t currentBatch = (current_record + batchSize - 1) / batchSize;
                         std::unordered_set<void *> applied;
                         for (size_t outputIndex = 0; outputIndex < outputSize; outputIndex++) {
                             outputNodes[outputIndex]->apply(optimizer, applied);
-- 
2.43.0


From 9f5d641004b634a2af655ef7d9c2c5ee1177234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 44/74] fix: a model saved beside an existing one keeps its
 knowledge with it

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 761263c..02484fa 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -238,7 +238,7 @@ namespace happyml {
                 writer->writeRecord(record);
             }
             writer->close();
-            saveKnowledge(modelFolderPath, "default", overwrite);
+            saveKnowledge(modelPath, "default", overwrite);
         }
 
         void saveKnowledgeWithOverwrite(const string &knowledgeLabel) {
-- 
2.43.0


From 5739da8c0c781f042f280ff7a573d465dd7352d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 45/74] fix: binary accuracy compares every value of an output

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 02484fa..bd684cb 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -299,7 +299,7 @@ namespace happyml {
                 for (int i = 0; i < testDataset->getExpectedShapes().size(); i++) {
                     auto best_prediction = prediction[i];
                     auto best_actual = actual[i];
-                    for (int j = 0; j < prediction.size(); j++) {
+                    for (int j = 0; j < best_prediction->size(); j++) {
                         if (!roughlyEqual(std::round(best_prediction->getValue(j)), std::round(best_actual->getValue(j)))) {
                             matched_all = false;
                             break;
-- 
2.43.0


From 62da8c8b6d43f1a3c533d98fc027d502d3dd90dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 46/74] fix: dropout keeps the expected value of its input

---
 src/ml/layers/dropout_layer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ml/layers/dropout_layer.hpp b/src/ml/layers/dropout_layer.hpp
index 5876c1f..31b8f1c 100644
--- a/src/ml/layers/dropout_layer.hpp
+++ b/src/ml/layers/dropout_layer.hpp
@@ -16,7 +16,7 @@ namespace happyml {
             if (dropout_rate < 0.0 || dropout_rate > 1.0) {
                 throw runtime_error("DropoutLayer: dropout rate must be between 0 and 1.");
             }
-            forward_scale_ = 1.0f / (1.0f - dropout_rate_);
+            forward_scale_ = dropout_rate_ < 1.0f ? 1.0f / (1.0f - dropout_rate_) : 0.0f;
             output_shape_ = input_shape_;
         }
 
@@ -26,7 +26,7 @@ namespace happyml {
                 seed_seq_++;
                 shared_ptr < BaseTensor > random_tensor = make_shared<TensorFromRandom>(input[0]->getShape(), 0.0f, 1.0f, seed_seq_);
                 shared_ptr < BaseTensor > zeros = make_shared<UniformTensor>(input[0]->getShape(), 0.0f);
-                shared_ptr < BaseTensor > ones = make_shared<UniformTensor>(input[0]->getShape(), 1.0f);
+                shared_ptr < BaseTensor > ones = make_shared<UniformTensor>(input[0]->getShape(), forward_scale_);
 
                 // Populate dropout_mask_ with random values from a uniform distribution between 0 and 1
                 // then set to 1 if value > dropout_rate_, else 0
@@ -35,7 +35,7 @@ namespace happyml {
                 // Multiply input by dropout_mask_
                 return make_shared<ElementWiseMultiplyTensorView>(input[0], dropout_mask_);
             }
-            return make_shared<ElementWiseMultiplyTensorView>(input[0], make_shared<UniformTensor>(input[0]->getShape(), forward_scale_));
+            return input[0];
         }
 
         std::vector<std::shared_ptr<BaseTensor>> backward(const std::shared_ptr<BaseTensor> &output_error) override {
-- 
2.43.0


From 33c4024e653fff17d2f2c971eaf1a919fb53ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 47/74] fix: a dropout layer has the rate it was added with

---
 src/ml/happyml_dsl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index fb703bf..7d7a2a6 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -339,6 +339,7 @@ namespace happyml {
                                                  this->outputShape,
                                                  false, false,
                                                  ActivationType::linear, parentObject->nextVertexId());
+                nnv->setDropoutRate(dropout_rate);
                 addEdge(nnv);
                 return nnv;
             }
-- 
2.43.0


From a0bf3b361f75758072c79dd51c2ee6af89644a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 48/74] fix: dropout keeps the shape of its input

---
 src/ml/happyml_dsl.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 7d7a2a6..242f970 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -455,10 +455,6 @@ namespace happyml {
                     next_node = make_shared<NeuralNetworkNode>(make_shared<NormalizationLayer>());
                 } else if (node_type == LayerType::dropout) {
                     auto inputShape = inputShapes[0];
-                    if (inputShape[0] > 1) {
-                        auto flatten_node = make_shared<NeuralNetworkNode>(make_shared<FlattenLayer>());
-                        last_node = appendNode(last_node, flatten_node);
-                    }
                     string dropoutNodeLabel = asString(vertexUniqueId) + "_dropout";
                     next_node = make_shared<NeuralNetworkNode>(make_shared<DropoutLayer>(dropoutNodeLabel, inputShape, dropout_rate));
                 } else if (node_type == LayerType::convolution2dValid) {
-- 
2.43.0


From 45c1a0b12d2a1605a2aaa3831e30f248d9965098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 49/74] fix: flattening several channels and back keeps every
 value

---
 src/ml/happyml_dsl.hpp                         |  2 +-
 src/ml/layers/flatten_layer.hpp                |  9 ++++++---
 src/types/tensor_views/reshape_tensor_view.hpp | 15 +++++++++------
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 242f970..4608c92 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -419,7 +419,7 @@ namespace happyml {
                 shared_ptr<NeuralNetworkNode> last_node = nullptr;
                 if (node_type == LayerType::full) {
                     auto inputShape = inputShapes[0];
-                    if (inputShape[0] > 1) {
+                    if (inputShape[0] > 1 || inputShape[2] > 1) {
                         auto flatten_node = make_shared<NeuralNetworkNode>(make_shared<FlattenLayer>());
                         last_node = appendNode(last_node, flatten_node);
                     }
diff --git a/src/ml/layers/flatten_layer.hpp b/src/ml/layers/flatten_layer.hpp
index 9aab991..7974149 100644
--- a/src/ml/layers/flatten_layer.hpp
+++ b/src/ml/layers/flatten_layer.hpp
@@ -18,7 +18,8 @@ namespace happyml {
             const auto &nextInput = input[0];
             originalCols = nextInput->columnCount();
             originalRows = nextInput->rowCount();
-            if (originalRows == 1) {
+            originalChannels = nextInput->channelCount();
+            if (originalRows == 1 && originalChannels == 1) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return nextInput;
             }
@@ -27,16 +28,18 @@ namespace happyml {
 
         vector<shared_ptr<BaseTensor>> backward(const shared_ptr<BaseTensor> &output_error) override {
             PROFILE_BLOCK(profileBlock);
-            if (originalRows == output_error->rowCount() && originalCols == output_error->columnCount()) {
+            if (originalRows == output_error->rowCount() && originalCols == output_error->columnCount() &&
+                originalChannels == output_error->channelCount()) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return {output_error};
             }
-            return {make_shared<ReshapeTensorView>(output_error, originalRows, originalCols)};
+            return {make_shared<ReshapeTensorView>(output_error, originalRows, originalCols, originalChannels)};
         }
 
     private:
         size_t originalRows{};
         size_t originalCols{};
+        size_t originalChannels{};
     };
 }
 #endif //HAPPYML_FLATTEN_LAYER_HPP
diff --git a/src/types/tensor_views/reshape_tensor_view.hpp b/src/types/tensor_views/reshape_tensor_view.hpp
index 10db4d9..c3fbc91 100644
--- a/src/types/tensor_views/reshape_tensor_view.hpp
+++ b/src/types/tensor_views/reshape_tensor_view.hpp
@@ -10,19 +10,16 @@
 #include <execution>
 
 namespace happyml {
-// Change the number of rows and columns, but maintain the same number of elements per channel.
-// You cannot change the number of channels in the current implementation.
+// Change the number of rows, columns and channels, but maintain the same number of elements.
     class ReshapeTensorView : public BaseTensorUnaryOperatorView {
     public:
         ReshapeTensorView(const shared_ptr<BaseTensor> &tensor, const size_t rows,
                           const size_t columns, const size_t channels) : BaseTensorUnaryOperatorView(tensor) {
             this->rows = rows;
             this->columns = columns;
-            if (channels != tensor->channelCount()) {
-                throw runtime_error("A tensor view must be put over a tensor with the same number of channels.");
-            }
+            this->channels = channels;
             this->elements_per_channel = (unsigned long) rows * (unsigned long) columns;
-            if (tensor->elementsPerChannel() != elements_per_channel) {
+            if (tensor->size() != elements_per_channel * channels) {
                 throw runtime_error("A tensor view must be put over a tensor with the same number of elements.");
             }
         }
@@ -31,6 +28,7 @@ namespace happyml {
                           const size_t columns) : BaseTensorUnaryOperatorView(tensor) {
             this->rows = rows;
             this->columns = columns;
+            this->channels = tensor->channelCount();
             this->elements_per_channel = (unsigned long) rows * (unsigned long) columns;
             if (tensor->elementsPerChannel() != elements_per_channel) {
                 throw runtime_error("A tensor view must be put over a tensor with the same number of elements.");
@@ -50,6 +48,10 @@ namespace happyml {
             return columns;
         }
 
+        size_t channelCount() override {
+            return channels;
+        }
+
         float getValue(size_t row, size_t column, size_t channel) override {
             const unsigned long position_offset = ((row * columns) + column) + (channel * elements_per_channel);
             return child_->getValue(position_offset);
@@ -58,6 +60,7 @@ namespace happyml {
     private:
         size_t rows;
         size_t columns;
+        size_t channels;
         unsigned long elements_per_channel;
     };
 }
-- 
2.43.0


From 99e64a4a0c5ae84c9b5c286143d3a344ccffe147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 50/74] fix: a convolution passes back the error of every input
 channel

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 61d6fb7..2ee5daa 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -156,8 +156,7 @@ namespace happyml {
 
             weight_changes.push(output_layers_weight_changes);
 
-            const auto resultError = make_shared<SumChannelsTensorView>(inputError);
-            return {resultError};
+            return {inputError};
         }
 
         void apply(const shared_ptr<BaseOptimizer> &optimizer) override {
-- 
2.43.0


From 83bea603a56aab1e1a2837c377cd50230ae2e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 51/74] fix: convolution regularization pulls on the weights

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 2ee5daa..fa5ee2a 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -143,7 +143,7 @@ namespace happyml {
                                                                                                             outputErrorForLayer);
                     if (use_l2_regularization) {
                         PROFILE_BLOCK(profileBlock2);
-                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(nextWeightError, regularization_strength);
+                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(weightForInputLayer, regularization_strength);
                         nextWeightError = make_shared<AddTensorView>(nextWeightError, l2_regularization);
                     }
                     const auto nextWeightToInputChannel = make_shared<SumToChannelTensorView>(nextWeightError,
-- 
2.43.0


From 9bd7709d830454dede70d4798233f09136b9631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 52/74] fix: every filter of a convolution has a momentum of
 its own

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index fa5ee2a..b61164f 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -21,7 +21,7 @@ namespace happyml {
                                    bool use_l2_regularization,
                                    float regularization_strength) {
             this->label = label;
-            this->registration_id = optimizer_registration_id;
+            this->registration_ids = {optimizer_registration_id};
             this->inputShape = inputShape;
             this->kernelSize = kernelSize;
             this->outputShape = {inputShape[0] - kernelSize + 1, inputShape[1] - kernelSize + 1, filters};
@@ -163,12 +163,15 @@ namespace happyml {
             PROFILE_BLOCK(profileBlock);
 
             const size_t filters = outputShape[2];
+            while (registration_ids.size() < filters) {
+                registration_ids.push_back(optimizer->registerForWeightChanges());
+            }
             while (!weight_changes.empty()) {
                 vector<shared_ptr<BaseTensor>> weightChanges = weight_changes.front();
                 weight_changes.pop();
                 for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
                     auto loss_gradient = weightChanges[outputLayer];
-                    const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id,
+                    const auto adjustedWeights = optimizer->calculateWeightsChange(registration_ids[outputLayer],
                                                                                    weights[outputLayer],
                                                                                    loss_gradient);
                     weights[outputLayer] = materializeTensor(adjustedWeights, bits);
@@ -193,7 +196,7 @@ namespace happyml {
         }
 
     private:
-        int registration_id;
+        vector<int> registration_ids; // one for each filter, because each has weights of its own
         queue<shared_ptr<BaseTensor>> lastInputs; // each input in a batch will queue in order during forward, and deque properly when back-propagating
         queue<vector<shared_ptr<BaseTensor>>> weight_changes;
         vector<shared_ptr<BaseTensor>> weights;
-- 
2.43.0


From 3de8ff005a1054f0eb45258f5fa116080105fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 53/74] fix: a reloaded model finds the knowledge of its own
 layers

---
 src/ml/happyml_dsl.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 4608c92..0e4ebda 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -573,6 +573,10 @@ namespace happyml {
                 return vertexUniqueId;
             }
 
+            void setVertexUniqueId(uint32_t vertex_unique_id) {
+                this->vertexUniqueId = vertex_unique_id;
+            }
+
             bool isForOutput() const {
                 return producesOutput;
             }
@@ -905,6 +909,7 @@ namespace happyml {
                                                              activationType);
             }
         }
+        createdVertexes[vertexId]->setVertexUniqueId(vertexId); // knowledge is stored under this id
         createdVertexes[vertexId]->setMaterialized(isMaterialized);
         createdVertexes[vertexId]->setUseBias(useBias);
         createdVertexes[vertexId]->setBits(bits);
-- 
2.43.0


From ca8a9dec0da0cb71cd1df1bdae714e5dd60f140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 54/74] fix: the normalization layer passes back its real
 gradient

---
 src/ml/layers/normalization_layer.hpp         |  4 ++-
 .../standardize_derivative_tensor_view.hpp    | 31 +++++++++----------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/ml/layers/normalization_layer.hpp b/src/ml/layers/normalization_layer.hpp
index 199046c..9af69ef 100644
--- a/src/ml/layers/normalization_layer.hpp
+++ b/src/ml/layers/normalization_layer.hpp
@@ -31,6 +31,7 @@ namespace happyml {
             shared_ptr<StandardizeTensorView> normTensor = make_shared<StandardizeTensorView>(inputTensor);
             if (forTraining) {
                 lastInput = normTensor;
+                lastSource = inputTensor;
             }
 #ifdef DEBUG_TRAIN_NAN
             if (normTensor->hasNaNOrInf()) {
@@ -48,7 +49,7 @@ namespace happyml {
                 throw runtime_error("No inputs to backpropagate through.");
             }
 
-            shared_ptr<BaseTensor> normDerivativeTensor = make_shared<StandardizeDerivativeTensorView>(output_error, lastInput, lastInput->get_mean(), lastInput->get_std_dev());
+            shared_ptr<BaseTensor> normDerivativeTensor = make_shared<StandardizeDerivativeTensorView>(output_error, lastSource, lastInput->get_mean(), lastInput->get_std_dev());
 #ifdef DEBUG_TRAIN_NAN
             if (normDerivativeTensor->hasNaNOrInf()) {
                 normDerivativeTensor->print();
@@ -61,6 +62,7 @@ namespace happyml {
 
     private:
         shared_ptr<StandardizeTensorView> lastInput;
+        shared_ptr<BaseTensor> lastSource;
     };
 
 }
diff --git a/src/types/tensor_views/standardize_derivative_tensor_view.hpp b/src/types/tensor_views/standardize_derivative_tensor_view.hpp
index df49a40..33556e8 100644
--- a/src/types/tensor_views/standardize_derivative_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_derivative_tensor_view.hpp
@@ -18,7 +18,16 @@ namespace happyml {
     public:
         explicit StandardizeDerivativeTensorView(const shared_ptr<BaseTensor> &d_output, const shared_ptr<BaseTensor> &input, float mean, float std_dev)
                 : BaseTensorUnaryOperatorView(d_output), mean_(mean), std_dev_(std_dev), input_(input) {
-            total_elements_ = input->size();
+            const size_t total_elements = input->size();
+            double d_output_sum = 0.0;
+            double d_output_by_input_sum = 0.0;
+            for (size_t element = 0; element < total_elements; element++) {
+                const double d_output_value = d_output->getValue(element);
+                d_output_sum += d_output_value;
+                d_output_by_input_sum += d_output_value * (input->getValue(element) - mean) / std_dev;
+            }
+            d_output_mean_ = (float) (d_output_sum / (double) total_elements);
+            d_output_by_input_mean_ = (float) (d_output_by_input_sum / (double) total_elements);
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
@@ -26,20 +35,9 @@ namespace happyml {
             float d_output_value = child_->getValue(row, column, channel);
             float input_value = input_->getValue(row, column, channel);
 
-            // calculate common part
-            float common = d_output_value / (std_dev_ * (float) total_elements_);
-
-            // calculate three parts of gradient
-            float dx1 = d_output_value / std_dev_;
-            float dx2 = -common * (input_value - mean_);
-
-            // Recompute common with square of difference
-            float diff = input_value - mean_;
-            common = d_output_value * diff / (std_dev_ * std_dev_ * std_dev_ * (float) total_elements_);
-            float dx3 = - (float) total_elements_ * diff * common;
-
-            // return total gradient
-            return dx1 + dx2 + dx3;
+            // the mean and the deviation depend on every input, so a change to one input moves all outputs
+            const float standardized = (input_value - mean_) / std_dev_;
+            return (d_output_value - d_output_mean_ - standardized * d_output_by_input_mean_) / std_dev_;
         }
 
         void printMaterializationPlan() override {
@@ -51,7 +49,8 @@ namespace happyml {
         float mean_;
         float std_dev_;
         shared_ptr<BaseTensor> input_;
-        size_t total_elements_;
+        float d_output_mean_;
+        float d_output_by_input_mean_;
     };
 }
 
-- 
2.43.0


From bcc3e577875fb2da7431e3998003e0a02a4c4060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 55/74] fix: a configuration is trained with the resources
 allocated to it

---
 src/ml/hyperband/configuration_evaluator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ml/hyperband/configuration_evaluator.hpp b/src/ml/hyperband/configuration_evaluator.hpp
index 64880aa..8b85d11 100644
--- a/src/ml/hyperband/configuration_evaluator.hpp
+++ b/src/ml/hyperband/configuration_evaluator.hpp
@@ -224,6 +224,7 @@ namespace happyml {
                                                                   improvement_tolerance,
                                                                   2,
                                                                   0.25f);
+            model->setExitStrategy(exit_strategy);
             model->setSilentMode(true);
             shared_ptr<BinaryDataSet> data_set = make_shared<BinaryDataSet>(dataset_path_, dataset_split_);
             shared_ptr<BinaryDataSet> test_data_set = make_shared<BinaryDataSet>(test_dataset_path_, test_dataset_split_);
-- 
2.43.0


From f25b48faf0701dd8be728ee59604d2f0376a3997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 56/74] fix: hyperband keeps the best configurations

---
 src/ml/hyperband/hyperband.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 571cdb4..2dbb736 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -74,9 +74,9 @@ namespace happyml {
 
             std::partial_sort(configurations.begin(), configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end(),
                               [](const shared_ptr<Hyperparameters> &config1, const shared_ptr<Hyperparameters> &config2) {
-                                  // return true if config1 is worse than config2
-                                  return (config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric) ||
-                                         (!config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric);
+                                  // return true if config1 is better than config2, because the first ones are kept
+                                  return (config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric) ||
+                                         (!config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric);
                               });
 
             configurations.erase(configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end());
-- 
2.43.0


From d14cd1d2810e4dbec51f97347242ffe71a590dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 57/74] fix: inserting a key again keeps one entry for it in
 the cache

---
 src/util/lru_cache.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util/lru_cache.h b/src/util/lru_cache.h
index 08b50dd..6f6fd2b 100644
--- a/src/util/lru_cache.h
+++ b/src/util/lru_cache.h
@@ -22,6 +22,16 @@ namespace happyml {
         }
 
         void insert(const Key &key, const Value &value) {
+            const auto existing = cache_map_.find(key);
+            if (existing != cache_map_.end()) {
+                // An entry has one place in the list: the front, now that it was used again
+                lru_list_.splice(lru_list_.begin(), lru_list_, existing->second.second);
+                existing->second.first = value;
+                return;
+            }
+            if (capacity_ == 0) {
+                return;
+            }
             if (cache_map_.size() >= capacity_) {
                 // Remove the least recently used entry
                 Key least_recent = lru_list_.back();
-- 
2.43.0


From 85b78a13405b81c2419808b2e1da8a7f6af39ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 58/74] fix: sorting a file leaves the other files of its
 folder alone

---
 src/util/text_file_sorter.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/util/text_file_sorter.hpp b/src/util/text_file_sorter.hpp
index c124f9b..39fff81 100644
--- a/src/util/text_file_sorter.hpp
+++ b/src/util/text_file_sorter.hpp
@@ -26,8 +26,6 @@ namespace happyml {
         // at least in the case where the given is in the file before the expected
         // values.
         static bool sort(const std::string &file_name, const std::string &result_file_name, bool has_header = true, int chunk_size = 10000, bool delete_duplicates = true) {
-            auto parent_path = std::filesystem::path(file_name).parent_path().string();
-
             std::ifstream input(file_name);
 
             if (!input.is_open()) {
@@ -52,7 +50,7 @@ namespace happyml {
                 if (lines.size() >= chunk_size) {
                     sort_chunk(lines);
 
-                    std::string chunk_path = parent_path + "/chunk_" + std::to_string(chunk_counter) + ".txt";
+                    std::string chunk_path = chunk_path_for(result_file_name, chunk_counter);
                     std::ofstream chunk_output(chunk_path);
                     chunk_paths.push_back(chunk_path);
                     for (const auto &sorted_line: lines) {
@@ -68,7 +66,7 @@ namespace happyml {
             if (!lines.empty()) {
                 sort_chunk(lines);
 
-                std::string chunk_path = parent_path + "/chunk_" + std::to_string(chunk_counter) + ".txt";
+                std::string chunk_path = chunk_path_for(result_file_name, chunk_counter);
                 std::ofstream chunk_output(chunk_path);
                 chunk_paths.push_back(chunk_path);
                 for (const auto &sorted_line: lines) {
@@ -79,7 +77,7 @@ namespace happyml {
             }
 
             input.close();
-            merge_chunks(parent_path, result_file_name, chunk_counter, header, has_header, delete_duplicates);
+            merge_chunks(result_file_name, chunk_counter, header, has_header, delete_duplicates);
             for (const auto &chunk_path: chunk_paths) {
                 std::filesystem::remove(chunk_path);
             }
@@ -87,18 +85,23 @@ namespace happyml {
         }
 
     private:
+        // beside the result, which is ours to write, and under a name of its own, so that no other file is overwritten
+        static std::string chunk_path_for(const std::string &result_file_name, size_t chunk) {
+            return result_file_name + ".chunk_" + std::to_string(chunk) + ".tmp";
+        }
+
         static void sort_chunk(std::vector<std::string> &lines) {
             std::sort(lines.begin(), lines.end());
         }
 
-        static void merge_chunks(const std::string &parent_path, const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
+        static void merge_chunks(const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
             auto line_comparator = [](const auto &a, const auto &b) { return a.first > b.first; };
             std::priority_queue<std::pair<std::string, std::ifstream *>, std::vector<std::pair<std::string, std::ifstream *>>, decltype(line_comparator)> min_heap(line_comparator);
 
             std::vector<std::ifstream> chunk_files(num_chunks);
 
             for (size_t i = 0; i < num_chunks; ++i) {
-                std::string chunk_path = parent_path + "/chunk_" + std::to_string(i) + ".txt";
+                std::string chunk_path = chunk_path_for(output_file, i);
 
                 chunk_files[i].open(chunk_path);
 
-- 
2.43.0


From ffde8ea67a0dd06967bd6d779d98c7de9bea0ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:55 +0000
Subject: [PATCH 59/74] fix: the time limit of training counts all epochs

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index bd684cb..dcb5b86 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -556,7 +556,7 @@ namespace happyml {
                 }
                 trainingDataset->restart();
                 epoch++;
-                trainingElapsedTimeInMilliseconds = epochTimer.getMilliseconds();
+                trainingElapsedTimeInMilliseconds = epochTimer.peekMilliseconds();
             } while (!exitStrategy->isDone(epoch, epochTestingLoss, trainingElapsedTimeInMilliseconds));
 
             if (!silentMode) {
-- 
2.43.0


From 8f9844ff2792f9e01655f3861563be49b6ba6c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:55 +0000
Subject: [PATCH 60/74] fix: a concatenation splits its error the way it joined
 its inputs

---
 src/ml/layers/concatenate_wide_layer.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ml/layers/concatenate_wide_layer.hpp b/src/ml/layers/concatenate_wide_layer.hpp
index 35cfdd3..99d2583 100644
--- a/src/ml/layers/concatenate_wide_layer.hpp
+++ b/src/ml/layers/concatenate_wide_layer.hpp
@@ -15,7 +15,7 @@
 namespace happyml {
     class ConcatenateWideLayer : public BaseLayer {
     public:
-        explicit ConcatenateWideLayer(string label, vector<vector<size_t>> input_shapes) : label_(std::move(label)), input_shapes_(input_shapes) {
+        explicit ConcatenateWideLayer(string label, vector<vector<size_t>> input_shapes) : label_(std::move(label)) {
             // vector of shapes (rows, columns, channels)
             // all shapes must have the same number of rows and channels
             size_t rows = input_shapes[0][0];
@@ -36,6 +36,7 @@ namespace happyml {
                     throw runtime_error("ConcatenateWideLayer: all input shapes must have the same number of channels.");
                 }
                 combined_columns += next[1];
+                input_columns_.push_back(next[1]);
             }
             output_shape_ = {rows, combined_columns, channels};
         }
@@ -53,6 +54,12 @@ namespace happyml {
                 result = make_shared<ConcatWideTensorView>(result, input[i]);
             }
 
+            // the inputs may arrive in another order than the shapes were given in
+            input_columns_.clear();
+            for (const auto &next: input) {
+                input_columns_.push_back(next->columnCount());
+            }
+
             return result;
         }
 
@@ -62,8 +69,7 @@ namespace happyml {
             vector<shared_ptr<BaseTensor>> errors;
             size_t start_column = 0;
 
-            for (const auto& shape : input_shapes_) {
-                size_t input_column_count = shape[1];
+            for (const auto input_column_count: input_columns_) {
                 auto error_view = make_shared<WindowTensorView>(output_error, start_column, start_column + input_column_count);
                 errors.push_back(error_view);
                 start_column += input_column_count;
@@ -77,7 +83,7 @@ namespace happyml {
         }
 
     private:
-        vector<vector<size_t>> input_shapes_;
+        vector<size_t> input_columns_;
         vector<size_t> output_shape_;
         string label_;
     };
-- 
2.43.0


From d17aa9d247014097a7ba13707fb5f5c30b50cd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:55 +0000
Subject: [PATCH 61/74] fix: a failed prediction leaves nothing behind for the
 next one

---
 src/ml/neural_network.hpp      | 13 +++++++++++--
 src/ml/neural_network_node.hpp | 10 ++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index dcb5b86..46698b2 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -88,8 +88,17 @@ namespace happyml {
             if (givenInputs.size() != headNodes.size()) {
                 throw runtime_error("infer requires as many input tensors as there are input nodes");
             }
-            for (size_t i = 0; i < headNodes.size(); i++) {
-                headNodes[i]->forwardFromInput(givenInputs[i], forTraining);
+            try {
+                for (size_t i = 0; i < headNodes.size(); i++) {
+                    headNodes[i]->forwardFromInput(givenInputs[i], forTraining);
+                }
+            } catch (...) {
+                // inputs that were waiting for another branch must not reach the next prediction
+                std::unordered_set<void *> visited;
+                for (const auto &headNode: headNodes) {
+                    headNode->forgetInputs(visited);
+                }
+                throw;
             }
             vector<shared_ptr<BaseTensor>> results;
             results.reserve(outputNodes.size());
diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index 3291694..3807d48 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -167,6 +167,16 @@ namespace happyml {
             }
         }
 
+        void forgetInputs(std::unordered_set<void *> &visited) {
+            if (!visited.insert((void *) this).second) {
+                return;
+            }
+            for (const auto &outputConnection: connectionOutputs) {
+                outputConnection->next_input = nullptr;
+                outputConnection->to->forgetInputs(visited);
+            }
+        }
+
         vector<shared_ptr<BaseTensor>> clip(const vector<shared_ptr<BaseTensor>> &errors_from_backward) {
             // backward could be sending to multiple parent nodes in the case we are coming from something
             // like a concatenation layer.
-- 
2.43.0


From d093a9f705fceddf3507e2379262ebfac6aa7693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:55 +0000
Subject: [PATCH 62/74] fix: rates and strengths of any size survive being
 saved

---
 src/util/portable_bytes.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/portable_bytes.hpp b/src/util/portable_bytes.hpp
index 6a7d8ab..91f0ade 100644
--- a/src/util/portable_bytes.hpp
+++ b/src/util/portable_bytes.hpp
@@ -6,7 +6,9 @@
 #ifndef HAPPYML_PORTABLE_BYTES_HPP
 #define HAPPYML_PORTABLE_BYTES_HPP
 
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <sstream>
 
 // windows uses little endian order, but big endian is more common for other operating systems.
@@ -73,7 +75,7 @@ std::string asString(uint64_t i) {
 
 std::string asString(double d) {
     std::stringstream ss;
-    ss << std::fixed << std::setprecision(15) << d;
+    ss << std::setprecision(std::numeric_limits<double>::max_digits10) << d;
     return ss.str();
 }
 
-- 
2.43.0


From 03c023529e7c30f32b24322bf301920a90a157ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:55 +0000
Subject: [PATCH 63/74] fix: a reloaded model has the layers and connections it
 was saved with

---
 src/ml/happyml_dsl.hpp | 57 ++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 36 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 0e4ebda..ef809d8 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -798,7 +798,6 @@ namespace happyml {
                                   const vector<string> &vertexMetadata,
                                   const shared_ptr<HappymlDSL::NNVertex> &parent,
                                   map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> &createdVertexes,
-                                  map<uint32_t, vector<string>> &vertexes,
                                   map<uint32_t, vector<uint32_t>> &edgeFromTo) {
         // "vertex", id, is input, is output, node type, activation type, materialized, uses bias, bits,
         // input rows, input columns, input channels, output rows, output columns, output channels, filters, kernels
@@ -870,10 +869,8 @@ namespace happyml {
             if (layerType == concatenate) {
                 // a concatenated layer has multiple parents.
 
-                // because layers are in the order they were originally created and the concatenation
-                // layer is last, if we are at this point, all parents should exist, we just need to find them
-                // I think the parent order should also be maintained
-                bool all_parents_exist = true;
+                // because layers are created in the order they were originally created,
+                // all parents exist at this point, we just need to find them
                 vector<shared_ptr<HappymlDSL::NNVertex>> all_parents;
                 for (const auto &edge_pair: edgeFromTo) {
                     auto edge_to_ids = edge_pair.second;
@@ -881,16 +878,12 @@ namespace happyml {
                     if (std::find(edge_to_ids.begin(), edge_to_ids.end(), vertexId) != edge_to_ids.end()) {
                         auto edge_from_id = edge_pair.first;
                         if (createdVertexes.count(edge_from_id) == 0) {
-                            all_parents_exist = false;
-                            break;
+                            throw runtime_error("Bad model definition. Edge not found!");
                         }
                         auto edge_from_vertex = createdVertexes[edge_from_id];
                         all_parents.push_back(edge_from_vertex);
                     }
                 }
-                if (!all_parents_exist) {
-                    return;
-                }
                 createdVertexes[vertexId] = dsl->add_concatenated_layer(all_parents);
             } else if (filters > 0) {
                 createdVertexes[vertexId] = parent->addLayer(filters,
@@ -919,22 +912,6 @@ namespace happyml {
         createdVertexes[vertexId]->setNormClippingThreshold(clipping_threshold); // set this first because it would enable clipping
         createdVertexes[vertexId]->setUseNormClipping(use_clipping); // set this second because it could disable clipping if required
         createdVertexes[vertexId]->setDropoutRate(dropout_rate);
-
-        if (edgeFromTo.count(vertexId) > 0) {
-            auto edges = edgeFromTo[vertexId];
-            for (auto nextEdge: edges) {
-                if (vertexes.count(nextEdge) < 1) {
-                    throw runtime_error("Bad model definition. Edge not found!");
-                }
-                auto nextVertexMetadata = vertexes[nextEdge];
-                createVertexFromMetadata(dsl,
-                                         nextVertexMetadata,
-                                         createdVertexes[vertexId],
-                                         createdVertexes,
-                                         vertexes,
-                                         edgeFromTo);
-            }
-        }
     }
 
     shared_ptr<NeuralNetworkForTraining> loadNeuralNetworkForTraining(const string &modelName,
@@ -973,7 +950,6 @@ namespace happyml {
                 ->setLearningRate(learningRate)
                 ->setBiasLearningRate(biasLearningRate);
 
-        set<uint32_t> headVertexes;
         map<uint32_t, vector<string>> vertexes;
         map<uint32_t, vector<uint32_t>> edgeFromTo;
         while (configReader->hasNext()) {
@@ -981,10 +957,6 @@ namespace happyml {
             if (nextRecord[0] == "vertex") {
                 uint32_t vertexId = stoul(nextRecord[1]);
                 vertexes[vertexId] = nextRecord;
-                const auto acceptsInput = asBool(nextRecord[2]);
-                if (acceptsInput) {
-                    headVertexes.insert(vertexId);
-                }
             } else {
                 uint32_t fromLabel = stoul(nextRecord[1]);
                 vector<uint32_t> toLabels;
@@ -996,13 +968,26 @@ namespace happyml {
             }
         }
         map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> createdVertexes;
-        for (auto headVertexId: headVertexes) {
-            auto vertexMetadata = vertexes[headVertexId];
+        map<uint32_t, uint32_t> firstParents;
+        for (const auto &edge: edgeFromTo) {
+            for (auto to: edge.second) {
+                if (vertexes.count(to) < 1) {
+                    throw runtime_error("Bad model definition. Edge not found!");
+                }
+                firstParents.insert({to, edge.first});
+            }
+        }
+        // Ids were handed out in the order in which the layers were added, so creating the layers in the
+        // order of their ids adds the edges in their original order, too.
+        for (const auto &vertex: vertexes) {
+            shared_ptr<HappymlDSL::NNVertex> parent = nullptr;
+            if (firstParents.count(vertex.first) > 0 && createdVertexes.count(firstParents[vertex.first]) > 0) {
+                parent = createdVertexes[firstParents[vertex.first]];
+            }
             createVertexFromMetadata(dsl,
-                                     vertexMetadata,
-                                     nullptr,
+                                     vertex.second,
+                                     parent,
                                      createdVertexes,
-                                     vertexes,
                                      edgeFromTo);
         }
 
-- 
2.43.0


From 4aa5d511709e6c893d22f2da52e1a1f6b1101fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:19 +0000
Subject: [PATCH 64/74] fix: loading knowledge that is missing or cut short
 fails

---
 src/types/tensor_impls/full_tensor.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/tensor_impls/full_tensor.hpp b/src/types/tensor_impls/full_tensor.hpp
index c1fce49..8b6b358 100644
--- a/src/types/tensor_impls/full_tensor.hpp
+++ b/src/types/tensor_impls/full_tensor.hpp
@@ -119,6 +119,7 @@ namespace happyml {
         explicit FullTensor(const string &fileName) {
             try {
                 ifstream stream;
+                stream.exceptions(ifstream::failbit | ifstream::badbit); // a missing or short file has no values
                 stream.open(fileName, ifstream::in | ios::binary);
                 assignFromStream(stream);
                 stream.close();
-- 
2.43.0


From 5672412113a340ad202eb0a634ceb590cad092c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:45 +0000
Subject: [PATCH 65/74] fix: a task that cannot be executed is reported instead
 of ending the session

---
 src/lang/statements/execute_task_statement.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lang/statements/execute_task_statement.hpp b/src/lang/statements/execute_task_statement.hpp
index f946c93..3e650e6 100644
--- a/src/lang/statements/execute_task_statement.hpp
+++ b/src/lang/statements/execute_task_statement.hpp
@@ -20,6 +20,15 @@ namespace happyml {
         }
 
         shared_ptr<ExecutionResult> execute(const shared_ptr<ExecutionContext> &context) override {
+            try {
+                return try_execute(context);
+            } catch (const std::exception &e) {
+                return make_shared<ExecutionResult>(false, false, "Failed to execute task " + task_name_ + ": " + e.what());
+            }
+        }
+
+    private:
+        shared_ptr<ExecutionResult> try_execute(const shared_ptr<ExecutionContext> &context) {
             //execute task <task name>
             //[with label <task label>]
             //using dataset <dataset name>
@@ -63,7 +72,6 @@ namespace happyml {
             return make_shared<ExecutionResult>(false, true, "Complete.");
         }
 
-    private:
         string task_name_;
         string task_label_;
         string dataset_name_;
-- 
2.43.0


From 329a91743d884446dcf2a154ea548638cbf14c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:45 +0000
Subject: [PATCH 66/74] fix: the labels of another dataset are read as the
 labels they are

---
 src/util/file_reader.hpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 67926f7..c35af74 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -248,6 +248,7 @@ namespace happyml {
                                                             renormalize_given_metadata_[given_offset]->is_normalized, renormalize_given_metadata_[given_offset]->is_standardized,
                                                             renormalize_given_metadata_[given_offset]->min_value, renormalize_given_metadata_[given_offset]->max_value,
                                                             renormalize_given_metadata_[given_offset]->mean, renormalize_given_metadata_[given_offset]->standard_deviation);
+                    next_tensor = relabel(next_tensor, metadata, renormalize_given_metadata_[given_offset]);
                 }
                 given_tensors.push_back(next_tensor);
                 given_offset++;
@@ -263,6 +264,7 @@ namespace happyml {
                                                             renormalize_expected_metadata_[expected_offset]->is_normalized, renormalize_expected_metadata_[expected_offset]->is_standardized,
                                                             renormalize_expected_metadata_[expected_offset]->min_value, renormalize_expected_metadata_[expected_offset]->max_value,
                                                             renormalize_expected_metadata_[expected_offset]->mean, renormalize_expected_metadata_[expected_offset]->standard_deviation);
+                    next_tensor = relabel(next_tensor, metadata, renormalize_expected_metadata_[expected_offset]);
                 }
                 expected_tensors.push_back(next_tensor);
                 expected_offset++;
@@ -487,6 +489,32 @@ namespace happyml {
             return metadata;
         }
 
+        // Datasets may list their labels in different orders, and not all have every label.
+        static shared_ptr<BaseTensor> relabel(const shared_ptr<BaseTensor> &original,
+                                              const shared_ptr<BinaryColumnMetadata> &from,
+                                              const shared_ptr<BinaryColumnMetadata> &to) {
+            if (from->purpose != 'L' || to->purpose != 'L' || from->ordered_labels == to->ordered_labels) {
+                return original;
+            }
+            vector<vector<vector<float>>> result(1, vector<vector<float>>(original->rowCount(), vector<float>(to->columns, 0.f)));
+            for (size_t row = 0; row < original->rowCount(); row++) {
+                for (size_t column = 0; column < original->columnCount() && column < from->ordered_labels.size(); column++) {
+                    const float value = original->getValue(row, column, 0);
+                    if (value == 0.f) {
+                        continue;
+                    }
+                    const auto &label = from->ordered_labels[column];
+                    const auto found = std::find(to->ordered_labels.begin(), to->ordered_labels.end(), label);
+                    const size_t to_column = found - to->ordered_labels.begin();
+                    if (found == to->ordered_labels.end() || to_column >= to->columns) {
+                        throw runtime_error("Unknown label " + label + " for column: " + to->name);
+                    }
+                    result[0][row][to_column] = value;
+                }
+            }
+            return make_shared<FullTensor>(result);
+        }
+
         [[nodiscard]] shared_ptr<BaseTensor> loadTensor(const shared_ptr<BinaryColumnMetadata> &metadata) {
             shared_ptr<BaseTensor> next_tensor;
             if (metadata->purpose == 'I') {
-- 
2.43.0


From b0d87920c45d6e2fdc51d2de2545b3084b69bb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:38 +0000
Subject: [PATCH 67/74] fix: the search for training parameters ends

---
 src/util/task_utils.hpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 5ee2a54..a347f6c 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -509,9 +509,9 @@ namespace happyml {
             cout << "Using batch size " << max_batch_size << endl;
             int attempt = 0;
             float next_search_size = 640.0f;
+            int retries = 0;
 
             while (!found) {
-                int retries = 0;
                 float best_accuracy = 0.0f;
                 string best_attempt_key;
                 shared_ptr<BinaryDataSet> searchDataSource;
@@ -595,15 +595,8 @@ namespace happyml {
                         next_results.erase(next_results.begin() + top_results, next_results.end());
                         cout << "Leader board kept: " << next_results.size() << endl;
                         vector<pair<double, float>> next_complexity_lr_pairs;
-                        for (auto complexity_lr_pair: complexity_lr_pairs) {
-                            double complexity_modifier = complexity_lr_pair.first;
-                            float learningRateAdjustmentFactor = complexity_lr_pair.second;
-                            for (const auto &result: next_results) {
-                                if (result->complexity_modifier == complexity_modifier && result->learningRateAdjustmentFactor == learningRateAdjustmentFactor) {
-                                    next_complexity_lr_pairs.emplace_back(complexity_modifier, learningRateAdjustmentFactor);
-                                    break;
-                                }
-                            }
+                        for (const auto &result: next_results) {
+                            next_complexity_lr_pairs.emplace_back(result->complexity_modifier, result->learningRateAdjustmentFactor);
                         }
                         complexity_lr_pairs = next_complexity_lr_pairs;
                         cout << "Complexity/learning rate pairs left: " << complexity_lr_pairs.size() << endl;
-- 
2.43.0


From d10d22f576e16c08e816bf279901b3751c980a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:38 +0000
Subject: [PATCH 68/74] fix: a failed attempt keeps the parameters it was made
 with

---
 src/util/task_utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index a347f6c..47dc87c 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -383,7 +383,10 @@ namespace happyml {
             log_file << "Generalized: " << (attempt_result->generalized ? "true" : "false") << endl;
             log_file << "Accuracy: " << fixed << setprecision(2) << (attempt_result->accuracy * 100) << "%" << endl;
         } catch (const exception &e) {
+            cout << "Attempt failed: " << e.what() << endl;
             attempt_result = make_shared<TrainingResult>();
+            attempt_result->learningRateAdjustmentFactor = learningRateAdjustmentFactor;
+            attempt_result->complexity_modifier = complexity_modifier;
         }
         return attempt_result;
     }
-- 
2.43.0


From 62919a6bd1686920ff3659a965cd1b0b1a99710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:36 +0000
Subject: [PATCH 69/74] fix: every layer of a task has at least one value

---
 src/util/task_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 47dc87c..9cfc6b0 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -44,7 +44,7 @@ namespace happyml {
 
         auto max_val = (size_t) ((double) total_output_values * (0.25 + complexity_multiplier));
         total_values = std::min(total_values, max_val);
-        return total_values;
+        return std::max(total_values, (size_t) 1);
     }
 
     size_t estimate_layer_output_size(vector<vector<size_t>> expected_shapes, const string &goal, double complexity_multiplier) {
@@ -60,7 +60,7 @@ namespace happyml {
                 throw runtime_error("Unsupported expected shape size");
             }
         }
-        return (size_t) ((double) total_values * complexity_multiplier);
+        return std::max((size_t) ((double) total_values * complexity_multiplier), (size_t) 1);
     }
 
     vector<shared_ptr<BaseTensor>> build_given(const unordered_map<std::string, std::vector<HappyMLVariant>> &user_inputs, const vector<shared_ptr<HappyMLVariantEncoder>> &encoders) {
-- 
2.43.0


From 76ffbbf5afee1fadaf1f6bc082ff629e55eeb2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:36 +0000
Subject: [PATCH 70/74] fix: a task is not created from attempts that all
 failed

---
 src/util/task_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 9cfc6b0..8a0788f 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -624,6 +624,8 @@ namespace happyml {
                             next_complexity_lr_pairs.emplace_back(complexity_modifier, learningRateAdjustmentFactor / 2.0f);
                             complexity_lr_pairs = next_complexity_lr_pairs;
                             cout << "Didn't generalize, trying with a lower learning rate and lower complexity." << endl;
+                        } else if (next_results.front()->total_records == 0) {
+                            throw runtime_error("No attempt to train task " + task_name + " succeeded.");
                         } else {
                             cout << "Only one complexity/learning rate pair left.  Using it." << endl;
                             log_file << "Only one complexity/learning rate pair left.  Using it." << endl;
-- 
2.43.0


From a59f72bbad9a2eb899f8016d92128225dae9bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:59 +0000
Subject: [PATCH 71/74] fix: a configuration that cannot be trained does not
 end the search for the others

---
 src/ml/hyperband/hyperband.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 2dbb736..9047deb 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -31,7 +31,14 @@ namespace happyml {
                     std::cout << "Round " << (round + 1) << ": ";
                     std::for_each(std::execution::par, configurations.begin(), configurations.end(), [&](shared_ptr<Hyperparameters> &configuration) {
                         cout << "{";
-                        configuration_evaluator_->evaluateConfiguration(configuration, allocated_resources, target_metric);
+                        try {
+                            configuration_evaluator_->evaluateConfiguration(configuration, allocated_resources, target_metric);
+                        } catch (const std::exception &e) {
+                            // for example, more convolutions than the image has room for. Nothing may escape from a parallel loop.
+                            cout << e.what();
+                            configuration->minimize_metric = configuration_evaluator_->getMinimizeMetric();
+                            configuration->evaluation_metric = configuration->minimize_metric ? INFINITY : -INFINITY;
+                        }
                         cout << "}";
                     });
                     cout << endl;
-- 
2.43.0


From fa53246aae6a4f766d27f411949330e04c36c858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:12 +0000
Subject: [PATCH 72/74] fix: hyperband tries a configuration that is the only
 one

---
 src/ml/hyperband/hyperband.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 9047deb..6627e95 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -25,7 +25,7 @@ namespace happyml {
                 }
                 std::vector<shared_ptr<Hyperparameters>> configurations = generateInitialConfigurations(num_configurations, bits_per_hyperparameter);
                 std::cout << "Searching for the best configuration among " << num_configurations << " likely options." << endl;
-                for (int round = 0; num_configurations > 1; round++) {
+                for (int round = 0; num_configurations > (round == 0 ? 0 : 1); round++) {
                     int allocated_resources = std::max(2, max_resources / static_cast<int>(pow(reduction_factor, round)));
 
                     std::cout << "Round " << (round + 1) << ": ";
-- 
2.43.0


From 9d37ec45b7d8ef54350c3d229467b382ac83d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:12 +0000
Subject: [PATCH 73/74] fix: a configuration without a defined result is not
 the best one

---
 src/ml/hyperband/configuration_evaluator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ml/hyperband/configuration_evaluator.hpp b/src/ml/hyperband/configuration_evaluator.hpp
index 8b85d11..792dae6 100644
--- a/src/ml/hyperband/configuration_evaluator.hpp
+++ b/src/ml/hyperband/configuration_evaluator.hpp
@@ -49,6 +49,10 @@ namespace happyml {
             shared_ptr<NeuralNetworkForTraining> model = buildModel(configuration);
             shared_ptr<TrainingResult> trainingResult = trainModel(model, configuration, allocatedResources, max_epochs_, max_time_);
             float evaluationMetric = evaluateModel(model, trainingResult);
+            if (std::isnan(evaluationMetric)) {
+                // nothing compares with it, so it could neither be beaten nor eliminated
+                evaluationMetric = minimize_metric_ ? INFINITY : -INFINITY;
+            }
             {
                 std::lock_guard<std::mutex> guard(mutex_);
                 storeResults(configuration, evaluationMetric);
-- 
2.43.0


From cd976390c7f8237390323635be9ae717d00a82f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:33 +0000
Subject: [PATCH 74/74] fix: random values between equal bounds are those
 bounds

---
 src/types/tensor_impls/tensor_from_random.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/tensor_impls/tensor_from_random.hpp b/src/types/tensor_impls/tensor_from_random.hpp
index 4550852..f8bb7e8 100644
--- a/src/types/tensor_impls/tensor_from_random.hpp
+++ b/src/types/tensor_impls/tensor_from_random.hpp
@@ -76,6 +76,9 @@ namespace happyml {
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
+            if (range == 0) {
+                return max_value; // there is no remainder of a division by zero
+            }
             // nothing magical here... I'm finding an offset, expanding it by a massive amount relative to the range,
             // then forcing it into a range. I picked a few constants that I felt gave a reasonable looking distribution.
             const double offset = (((double) channel * channel_size) + ((double) row * (double) cols) +
-- 
2.43.0

