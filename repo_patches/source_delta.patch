From 9b32926ce91797fad85b3e32dba72db9767d2c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:51 +0000
Subject: [PATCH 01/44] fix: reject header blocks whose field index cannot be
 decoded

decode_indexed_field and decode_literal_field logged the failed integer and then
dereferenced it.
---
 lib/hpack/header_block_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hpack/header_block_decoder.cpp b/lib/hpack/header_block_decoder.cpp
index 58de481..69cc6f1 100644
--- a/lib/hpack/header_block_decoder.cpp
+++ b/lib/hpack/header_block_decoder.cpp
@@ -134,6 +134,7 @@ std::expected<HttpHeader, FrameError> HeaderBlockDecoder::decode_indexed_field(B
     const auto index = IntegerDecoder::decode(reader, 7);
     if (!index.has_value()) {
         spdlog::error("failed to decode indexed header index (not enough bytes)");
+        return std::unexpected(FrameError::ProtocolError);
     }
 
     if (*index < 1) {
@@ -148,6 +149,7 @@ std::expected<HttpHeader, FrameError> HeaderBlockDecoder::decode_literal_field(
     const auto index = IntegerDecoder::decode(reader, idx_prefix_bits);
     if (!index.has_value()) {
         spdlog::error("failed to decode literal field index (not enough bytes)");
+        return std::unexpected(FrameError::ProtocolError);
     }
 
     bool is_new_name = *index == 0;
-- 
2.43.0


From fef737c088a82ffd0ab18af6805f03a2f1b52100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:51 +0000
Subject: [PATCH 02/44] fix: index the Huffman table with an unsigned octet
 when encoding

Octets above 0x7f in header names or values read outside the table where char is signed.
---
 lib/hpack/header_block_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index fe0dcfa..bc76312 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -23,7 +23,7 @@ std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::stri
         // use huffman coding
         BitWriter bw{};
         for (const char c : str) {
-            auto huffman_code = HUFFMAN_CODES[c];
+            auto huffman_code = HUFFMAN_CODES[static_cast<uint8_t>(c)];
             bw.write_bits(huffman_code.lsb_aligned_code, huffman_code.code_len);
         }
         auto bitstream = bw.finalize();
-- 
2.43.0


From 991a690076bf085df202ae8c975d3575b8cda9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:51 +0000
Subject: [PATCH 03/44] fix: encode HPACK indexes that do not fit their prefix
 as multi-octet integers

An index of 63 or more in a literal, or 127 or more in an indexed field, was written as
one octet and read back by the peer as a different field or an incomplete integer.
---
 lib/hpack/header_block_encoder.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index bc76312..36332c4 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -50,6 +50,13 @@ std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::stri
     return bytes;
 }
 
+static void write_index(std::vector<uint8_t>& bytes, size_t index, uint8_t pattern,
+                        uint8_t prefix_bits) {
+    auto encoded_index = IntegerEncoder::encode(static_cast<uint32_t>(index), prefix_bits);
+    encoded_index[0] |= pattern;
+    bytes.insert(bytes.end(), encoded_index.begin(), encoded_index.end());
+}
+
 std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& headers) {
     std::vector<uint8_t> bytes{};
     for (auto& hdr : headers) {
@@ -63,14 +70,14 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
             // found static header
             const size_t table_index = std::distance(STATIC_TABLE.begin(), st_it);
             const size_t index = table_index + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x80));
+            write_index(bytes, index, 0x80, 7);
             continue;
         }
 
         // check dynamic headers too
         if (auto dyn_table_index = dynamic_table_.find(hdr)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x80));
+            write_index(bytes, index, 0x80, 7);
             continue;
         }
 
@@ -82,7 +89,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         if (st_name_it != STATIC_TABLE.end()) {
             const size_t table_index = std::distance(STATIC_TABLE.begin(), st_name_it);
             const size_t index = table_index + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x40));
+            write_index(bytes, index, 0x40, 6);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
@@ -96,7 +103,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         // is dynamic field header name?
         if (auto dyn_table_index = dynamic_table_.find_name(hdr.name)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x40));
+            write_index(bytes, index, 0x40, 6);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
-- 
2.43.0


From 0dc8853aec2f1d2a283b99b41954b84174ad9509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:51 +0000
Subject: [PATCH 04/44] fix: accept Huffman strings only when they end in valid
 padding

Incomplete codes, zero padding, padding of 8 or more bits and the EOS symbol were accepted
(RFC 7541 section 5.2 requires a decoding error).
---
 lib/hpack/huffman_tree.cpp | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/lib/hpack/huffman_tree.cpp b/lib/hpack/huffman_tree.cpp
index 8375752..35d29fe 100644
--- a/lib/hpack/huffman_tree.cpp
+++ b/lib/hpack/huffman_tree.cpp
@@ -7,6 +7,8 @@
 
 namespace ion {
 
+static constexpr size_t MAX_PADDING_BITS = 7;
+
 void HuffmanTree::insert_symbol(int16_t symbol, uint32_t lsb_aligned_code, uint8_t code_len) {
     if (code_len == 0 || code_len > 31) {
         throw std::runtime_error("Invalid code length: " + std::to_string(code_len));
@@ -41,32 +43,32 @@ std::expected<std::vector<uint8_t>, HuffmanDecodeError> HuffmanTree::decode(
     BitReader br{data};
     const HuffmanNode* current = root_.get();
     size_t bits_processed = 0;
+    size_t pending_bits = 0;  // bits read since the last complete symbol
+    bool pending_all_ones = true;
     while (br.has_more()) {
-        if (!br.read_bit()) {
-            current = current->left.get();
-        } else {
-            current = current->right.get();
+        const bool bit = br.read_bit();
+        if (current) {
+            current = bit ? current->right.get() : current->left.get();
         }
         bits_processed++;
+        pending_bits++;
+        pending_all_ones = pending_all_ones && bit;
 
-        if (!current) {
-            while (br.has_more()) {
-                if (!br.read_bit()) {
-                    spdlog::error("remaining unmatched Huffman code is not padding: (bit pos = {})",
-                                  bits_processed);
-                    return std::unexpected{HuffmanDecodeError::InvalidCode};
-                }
-                bits_processed++;
-            }
-            return result;
-        }
-
-        if (current->is_terminal()) {
+        if (current && current->is_terminal()) {
             result.push_back(*current->symbol);
             current = root_.get();
+            pending_bits = 0;
+            pending_all_ones = true;
         }
     }
 
+    // what is left must be padding: fewer than 8 bits, all set (RFC 7541, section 5.2)
+    if (pending_bits > MAX_PADDING_BITS || !pending_all_ones) {
+        spdlog::error("remaining unmatched Huffman code is not padding: (bit pos = {})",
+                      bits_processed);
+        return std::unexpected{HuffmanDecodeError::InvalidCode};
+    }
+
     return result;
 }
 
-- 
2.43.0


From 129b1c9cce8cb5cc933af1ba1a6c1fb7fab814f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 05/44] fix: refuse WINDOW_UPDATE and GOAWAY payloads of the
 wrong size

A shorter payload was parsed out of bounds; a WINDOW_UPDATE that is not four octets is a
connection error (RFC 9113 section 6.9).
---
 lib/frame_error.h          |  2 +-
 lib/http2_conn.cpp         |  8 ++++++--
 lib/http2_frame_reader.cpp | 18 ++++++++++++++----
 lib/http2_frame_reader.h   |  4 ++--
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/lib/frame_error.h b/lib/frame_error.h
index fd883bf..8cd1c6c 100644
--- a/lib/frame_error.h
+++ b/lib/frame_error.h
@@ -1,3 +1,3 @@
 #pragma once
 
-enum class FrameError { InvalidSettingsSize, UnknownFrameType, ProtocolError };
+enum class FrameError { InvalidSettingsSize, InvalidPayloadSize, UnknownFrameType, ProtocolError };
diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 7ea5cb5..09ec51c 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -283,8 +283,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
         }
         case FRAME_TYPE_WINDOW_UPDATE: {
             spdlog::debug("received WINDOW_UPDATE frame for stream {}", frame.stream_id());
-            const auto [window_size_increment] = frame.read_window_update();
-            spdlog::debug("window size increment = {}", window_size_increment);
+            const auto window_update = frame.read_window_update();
+            if (!window_update) {
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
+            spdlog::debug("window size increment = {}", window_update->window_size_increment);
             break;
         }
         case FRAME_TYPE_GOAWAY: {
diff --git a/lib/http2_frame_reader.cpp b/lib/http2_frame_reader.cpp
index 16109d9..c1021c9 100644
--- a/lib/http2_frame_reader.cpp
+++ b/lib/http2_frame_reader.cpp
@@ -28,12 +28,22 @@ std::expected<std::vector<Http2Setting>, FrameError> Http2FrameReader::read_sett
     return settings;
 }
 
-Http2WindowUpdate Http2FrameReader::read_window_update() const {
-    return Http2WindowUpdate::parse(payload_.subspan<0, Http2WindowUpdate::wire_size>());
+std::expected<Http2WindowUpdate, FrameError> Http2FrameReader::read_window_update() const {
+    if (payload_.size() != Http2WindowUpdate::wire_size) {
+        spdlog::error("invalid WINDOW_UPDATE frame: data size is not {}",
+                      Http2WindowUpdate::wire_size);
+        return std::unexpected(FrameError::InvalidPayloadSize);
+    }
+    return Http2WindowUpdate::parse(payload_.first<Http2WindowUpdate::wire_size>());
 }
 
-Http2GoAwayPayload Http2FrameReader::read_goaway() const {
-    return Http2GoAwayPayload::parse(payload_.subspan<0, Http2GoAwayPayload::wire_size>());
+std::expected<Http2GoAwayPayload, FrameError> Http2FrameReader::read_goaway() const {
+    if (payload_.size() < Http2GoAwayPayload::wire_size) {
+        spdlog::error("invalid GOAWAY frame: data size is less than {}",
+                      Http2GoAwayPayload::wire_size);
+        return std::unexpected(FrameError::InvalidPayloadSize);
+    }
+    return Http2GoAwayPayload::parse(payload_.first<Http2GoAwayPayload::wire_size>());
 }
 
 }  // namespace ion
diff --git a/lib/http2_frame_reader.h b/lib/http2_frame_reader.h
index 948f9af..29ca988 100644
--- a/lib/http2_frame_reader.h
+++ b/lib/http2_frame_reader.h
@@ -55,8 +55,8 @@ class Http2FrameReader {
 
     // Type-specific payload readers
     std::expected<std::vector<Http2Setting>, FrameError> read_settings() const;
-    Http2WindowUpdate read_window_update() const;
-    Http2GoAwayPayload read_goaway() const;
+    std::expected<Http2WindowUpdate, FrameError> read_window_update() const;
+    std::expected<Http2GoAwayPayload, FrameError> read_goaway() const;
 
     std::span<const uint8_t> headers_block() const {
         if (priority()) {
-- 
2.43.0


From 86b614eeec317dd0d9d2793ac4b2fddc1db1bf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 06/44] fix: remove padding from HEADERS frames and check their
 fixed fields fit

PADDED was ignored, so padded requests were undecodable, and PRIORITY on a payload of less
than five octets made the header block run past the frame.
---
 lib/http2_conn.cpp         |  7 ++++++-
 lib/http2_frame_reader.cpp | 31 +++++++++++++++++++++++++++++++
 lib/http2_frame_reader.h   |  8 ++++----
 3 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 09ec51c..f9db09f 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -254,7 +254,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                           frame.is_end_stream(), frame.length());
 
             log_dynamic_tables();
-            auto hdrs = decoder_.decode(frame.headers_block());
+            const auto headers_block = frame.read_headers_block();
+            if (!headers_block) {
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
+            auto hdrs = decoder_.decode(*headers_block);
             if (!hdrs) {
                 update_state(Http2ConnectionState::ProtocolError);
                 return;
diff --git a/lib/http2_frame_reader.cpp b/lib/http2_frame_reader.cpp
index c1021c9..db5770b 100644
--- a/lib/http2_frame_reader.cpp
+++ b/lib/http2_frame_reader.cpp
@@ -8,6 +8,9 @@
 
 namespace ion {
 
+// exclusive (1), stream dependency (31) & weight (8)
+static constexpr size_t PRIORITY_FIELDS_SIZE = 5;
+
 std::expected<std::vector<Http2Setting>, FrameError> Http2FrameReader::read_settings() const {
     if (payload_.size() % Http2Setting::wire_size != 0) {
         spdlog::error("invalid SETTINGS frame: data size not a multiple of {}",
@@ -46,4 +49,32 @@ std::expected<Http2GoAwayPayload, FrameError> Http2FrameReader::read_goaway() co
     return Http2GoAwayPayload::parse(payload_.first<Http2GoAwayPayload::wire_size>());
 }
 
+std::expected<std::span<const uint8_t>, FrameError> Http2FrameReader::read_headers_block() const {
+    auto block = payload_;
+
+    size_t pad_length = 0;
+    if (padded()) {
+        if (block.empty()) {
+            spdlog::error("invalid HEADERS frame: pad length missing");
+            return std::unexpected(FrameError::InvalidPayloadSize);
+        }
+        pad_length = block.front();
+        block = block.subspan(1);
+    }
+
+    if (priority()) {
+        if (block.size() < PRIORITY_FIELDS_SIZE) {
+            spdlog::error("invalid HEADERS frame: priority fields missing");
+            return std::unexpected(FrameError::InvalidPayloadSize);
+        }
+        block = block.subspan(PRIORITY_FIELDS_SIZE);
+    }
+
+    if (pad_length > block.size()) {
+        spdlog::error("invalid HEADERS frame: padding exceeds payload");
+        return std::unexpected(FrameError::InvalidPayloadSize);
+    }
+    return block.first(block.size() - pad_length);
+}
+
 }  // namespace ion
diff --git a/lib/http2_frame_reader.h b/lib/http2_frame_reader.h
index 29ca988..c33488e 100644
--- a/lib/http2_frame_reader.h
+++ b/lib/http2_frame_reader.h
@@ -58,11 +58,11 @@ class Http2FrameReader {
     std::expected<Http2WindowUpdate, FrameError> read_window_update() const;
     std::expected<Http2GoAwayPayload, FrameError> read_goaway() const;
 
+    std::expected<std::span<const uint8_t>, FrameError> read_headers_block() const;
+
+    // as read_headers_block, but empty if the padding or priority fields do not fit
     std::span<const uint8_t> headers_block() const {
-        if (priority()) {
-            return payload_.subspan(5);  // skip exclusive (1), stream dependency (31) & weight (8)
-        }
-        return payload_;
+        return read_headers_block().value_or(std::span<const uint8_t>{});
     }
 
    private:
-- 
2.43.0


From 92691bdba4c81b497adad8097779846bf0a2013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 07/44] fix: report how much a partial TCP write has sent

It was reported as an error although the octets had gone out, so the connection was
dropped whenever a response exceeded the socket's send buffer.
---
 lib/transports/tcp_transport.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/lib/transports/tcp_transport.cpp b/lib/transports/tcp_transport.cpp
index f083125..3349a8b 100644
--- a/lib/transports/tcp_transport.cpp
+++ b/lib/transports/tcp_transport.cpp
@@ -51,13 +51,8 @@ std::expected<ssize_t, TransportError> TcpTransport::write(std::span<const uint8
         spdlog::error("TCP write error: {}", strerror(errno));
         return std::unexpected(TransportError::WriteError);
     }
-    if (bytes_written != static_cast<ssize_t>(buffer.size())) {
-        spdlog::error("TCP partial write: wrote {} of {} bytes", bytes_written, buffer.size());
-        // For non-blocking sockets, partial writes can happen
-        // TODO: Fix this!
-        return std::unexpected(TransportError::WriteError);
-    }
-    spdlog::trace("successfully wrote {} bytes to TCP socket", bytes_written);
+    // for non-blocking sockets, partial writes can happen: the caller writes the rest later
+    spdlog::trace("successfully wrote {} of {} bytes to TCP socket", bytes_written, buffer.size());
     return bytes_written;
 }
 
-- 
2.43.0


From 1abe5e7b232334d4e1b575732ee5815b6484a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 08/44] fix: do not keep references to the caller's method or
 the mount list in static handlers

The handler returned by get_handler used both after they could be gone.
---
 lib/router.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/router.cpp b/lib/router.cpp
index 5dbf97c..2ad2b4d 100644
--- a/lib/router.cpp
+++ b/lib/router.cpp
@@ -24,8 +24,9 @@ RouteHandler Router::get_handler(const std::string& path, const std::string& met
         if (method == "GET" || method == "HEAD") {
             for (const auto& handler : static_handlers_) {
                 if (handler->matches(path)) {
-                    target = [&handler, path, &method](const HttpRequest&) -> HttpResponse {
-                        return handler->handle(path, method == "HEAD");
+                    target = [static_handler = handler.get(), path,
+                              is_head = method == "HEAD"](const HttpRequest&) -> HttpResponse {
+                        return static_handler->handle(path, is_head);
                     };
                 }
             }
-- 
2.43.0


From f32168fe36bf671d2f97143cc62a68ecccf4025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 09/44] fix: serve index.html for the bare static prefix also
 when there is a query string

---
 lib/static_file_handler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/static_file_handler.cpp b/lib/static_file_handler.cpp
index 88d21a3..80d232b 100644
--- a/lib/static_file_handler.cpp
+++ b/lib/static_file_handler.cpp
@@ -18,6 +18,11 @@ bool StaticFileHandler::matches(const std::string& path) const {
 std::string StaticFileHandler::get_relative_path(const std::string& url_path) const {
     std::string rel_path = url_path.substr(url_prefix_.length());
 
+    // remove query string
+    if (const auto query_pos = rel_path.find('?'); query_pos != std::string::npos) {
+        rel_path = rel_path.substr(0, query_pos);
+    }
+
     if (rel_path.empty() || rel_path == "/") {
         rel_path = "/index.html";
     }
@@ -26,11 +31,6 @@ std::string StaticFileHandler::get_relative_path(const std::string& url_path) co
         rel_path = rel_path.substr(1);
     }
 
-    // remove query string
-    if (const auto query_pos = rel_path.find('?'); query_pos != std::string::npos) {
-        rel_path = rel_path.substr(0, query_pos);
-    }
-
     return rel_path;
 }
 
-- 
2.43.0


From 599efd88e465b0a1e6a54ad096bc33a078b2a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 10/44] fix: clear the OpenSSL error queue before each TLS
 operation

SSL_get_error reports SSL_ERROR_SSL when the thread's error queue is not empty, so an error
on one connection made the next read or write on another connection fail.
---
 lib/transports/tls_transport.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 6ddeed3..95cafcf 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -38,6 +38,7 @@ TlsTransport::TlsTransport(SocketFd&& client_fd, const TlsContext& tls_context)
 }
 
 std::expected<void, TransportError> TlsTransport::handshake() const {
+    ERR_clear_error();  // SSL_get_error also looks at errors left by other connections
     const int result = SSL_accept(ssl_);
     if (result == 1) {
         return {};
@@ -93,6 +94,7 @@ void TlsTransport::print_debug_to_stderr() {
 
 std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buffer) const {
     spdlog::trace("reading from SSL");
+    ERR_clear_error();  // SSL_get_error also looks at errors left by other connections
     const auto bytes_read = SSL_read(ssl_, buffer.data(), static_cast<int>(buffer.size()));
     if (bytes_read <= 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_read)) {
@@ -118,6 +120,7 @@ std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buf
 }
 
 std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8_t> buffer) const {
+    ERR_clear_error();  // SSL_get_error also looks at errors left by other connections
     const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(buffer.size()));
     if (bytes_written < 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
-- 
2.43.0


From 7dd36e22e6915e397a51cef566913b221d13896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:22 +0000
Subject: [PATCH 11/44] fix: escape what clients send in access log entries

Quotes and line breaks in a path, referrer or user agent ended the field or the line, so a
client could forge entries.
---
 lib/access_log.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/access_log.cpp b/lib/access_log.cpp
index 20b5202..3c0c57a 100644
--- a/lib/access_log.cpp
+++ b/lib/access_log.cpp
@@ -8,6 +8,22 @@
 
 namespace ion {
 
+// keeps octets chosen by the client from ending the field, or the line, they are written to
+static std::string escape(const std::string& value, bool escape_space = false) {
+    std::string escaped;
+    escaped.reserve(value.size());
+    for (const char c : value) {
+        const auto octet = static_cast<uint8_t>(c);
+        const bool printable = octet >= 0x20 && octet < 0x7f;
+        if (!printable || c == '"' || c == '\\' || (escape_space && c == ' ')) {
+            escaped += std::format("\\x{:02X}", octet);
+        } else {
+            escaped += c;
+        }
+    }
+    return escaped;
+}
+
 void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t status_code,
                             size_t content_length, const std::string& client_ip) {
     auto access_log = spdlog::get(ACCESS_LOGGER_NAME);
@@ -22,16 +38,16 @@ void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t statu
 
     for (const auto& [name, value] : req_headers) {
         if (name == ":method") {
-            method = value;
+            method = escape(value, true);
         }
         if (name == ":path") {
-            path = value;
+            path = escape(value, true);
         }
         if (name == "user-agent") {
-            user_agent = value;
+            user_agent = escape(value);
         }
         if (name == "referer") {
-            referrer = value;
+            referrer = escape(value);
         }
     }
     const auto entry =
-- 
2.43.0


From 773a418e884bf3d1b3d7f316399843a3e4115137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:22 +0000
Subject: [PATCH 12/44] fix: keep the response header table within the client's
 default of 4096 octets

The encoder referred to entries that clients had already evicted.
---
 lib/http2_conn.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 59f16bf..908d615 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -31,6 +31,9 @@ enum class Http2ConnectionState {
     ClientClosed
 };
 
+// SETTINGS_HEADER_TABLE_SIZE of a peer that has not sent one (RFC 9113, section 6.5.2)
+static constexpr size_t DEFAULT_HEADER_TABLE_SIZE = 4096;
+
 enum class ReadPrefaceResult { Success, NotEnoughData, ProtocolError };
 
 class Http2Connection {
@@ -54,7 +57,7 @@ class Http2Connection {
     std::vector<uint8_t> write_buffer_;
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
-    DynamicTable encoder_dynamic_table_{};
+    DynamicTable encoder_dynamic_table_{DEFAULT_HEADER_TABLE_SIZE};
     HeaderBlockDecoder decoder_{decoder_dynamic_table_};
     HeaderBlockEncoder encoder_{encoder_dynamic_table_};
     std::chrono::steady_clock::time_point last_activity_{std::chrono::steady_clock::now()};
-- 
2.43.0


From f49d3ab8f4533dc1fc68f5844504e681ae365a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:18 +0000
Subject: [PATCH 13/44] fix: keep the response header table within the limit
 the client announces

SETTINGS_HEADER_TABLE_SIZE was ignored: with a limit below 4096 the client could not decode
the responses (RFC 7541 section 4.2).
---
 lib/hpack/header_block_encoder.cpp | 34 ++++++++++++++++++++++--------
 lib/hpack/header_block_encoder.h   |  6 ++++++
 lib/http2_conn.cpp                 |  8 +++++++
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index 36332c4..50a5aaf 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -50,15 +50,31 @@ std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::stri
     return bytes;
 }
 
-static void write_index(std::vector<uint8_t>& bytes, size_t index, uint8_t pattern,
-                        uint8_t prefix_bits) {
-    auto encoded_index = IntegerEncoder::encode(static_cast<uint32_t>(index), prefix_bits);
-    encoded_index[0] |= pattern;
-    bytes.insert(bytes.end(), encoded_index.begin(), encoded_index.end());
+static void write_int(std::vector<uint8_t>& bytes, size_t value, uint8_t pattern,
+                      uint8_t prefix_bits) {
+    auto encoded = IntegerEncoder::encode(static_cast<uint32_t>(value), prefix_bits);
+    encoded[0] |= pattern;
+    bytes.insert(bytes.end(), encoded.begin(), encoded.end());
+}
+
+void HeaderBlockEncoder::set_max_table_size(size_t max_table_size) {
+    dynamic_table_.set_max_table_size(max_table_size);
+    const auto smallest = pending_size_updates_.empty()
+                              ? max_table_size
+                              : std::min(pending_size_updates_.front(), max_table_size);
+    pending_size_updates_ = {smallest};
+    if (max_table_size != smallest) {
+        pending_size_updates_.push_back(max_table_size);
+    }
 }
 
 std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& headers) {
     std::vector<uint8_t> bytes{};
+    for (const auto size : pending_size_updates_) {
+        write_int(bytes, size, 0x20, 5);
+    }
+    pending_size_updates_.clear();
+
     for (auto& hdr : headers) {
         // is static header?
         const auto st_it = std::find_if(
@@ -70,14 +86,14 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
             // found static header
             const size_t table_index = std::distance(STATIC_TABLE.begin(), st_it);
             const size_t index = table_index + 1;
-            write_index(bytes, index, 0x80, 7);
+            write_int(bytes, index, 0x80, 7);
             continue;
         }
 
         // check dynamic headers too
         if (auto dyn_table_index = dynamic_table_.find(hdr)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            write_index(bytes, index, 0x80, 7);
+            write_int(bytes, index, 0x80, 7);
             continue;
         }
 
@@ -89,7 +105,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         if (st_name_it != STATIC_TABLE.end()) {
             const size_t table_index = std::distance(STATIC_TABLE.begin(), st_name_it);
             const size_t index = table_index + 1;
-            write_index(bytes, index, 0x40, 6);
+            write_int(bytes, index, 0x40, 6);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
@@ -103,7 +119,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         // is dynamic field header name?
         if (auto dyn_table_index = dynamic_table_.find_name(hdr.name)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            write_index(bytes, index, 0x40, 6);
+            write_int(bytes, index, 0x40, 6);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
diff --git a/lib/hpack/header_block_encoder.h b/lib/hpack/header_block_encoder.h
index f53707f..3965b9c 100644
--- a/lib/hpack/header_block_encoder.h
+++ b/lib/hpack/header_block_encoder.h
@@ -1,4 +1,5 @@
 #pragma once
+#include <cstddef>
 #include <cstdint>
 #include <vector>
 
@@ -11,10 +12,15 @@ class HeaderBlockEncoder {
     explicit HeaderBlockEncoder(DynamicTable& dynamic_table);
     std::vector<uint8_t> encode(const std::vector<HttpHeader>& headers);
 
+    // changes the limit of the table; the next block tells the decoder
+    void set_max_table_size(size_t max_table_size);
+
    private:
     std::vector<uint8_t> write_length_and_string(const std::string& str);
 
     DynamicTable& dynamic_table_;
+    // the smallest limit set since the last block, then the last one if it is not the smallest
+    std::vector<size_t> pending_size_updates_{};
 };
 
 }  // namespace ion
diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index f9db09f..a53d5e9 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -21,6 +21,8 @@ static constexpr uint8_t FRAME_TYPE_SETTINGS = 0x04;
 static constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
 static constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
 
+static constexpr uint16_t SETTINGS_HEADER_TABLE_SIZE = 0x0001;
+
 static constexpr uint8_t FLAG_END_HEADERS = 0x04;
 static constexpr uint8_t FLAG_END_STREAM = 0x01;
 
@@ -239,6 +241,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                     update_state(Http2ConnectionState::ProtocolError);
                     return;
                 }
+                for (const auto& setting : *settings) {
+                    if (setting.identifier == SETTINGS_HEADER_TABLE_SIZE) {
+                        encoder_.set_max_table_size(
+                            std::min<size_t>(setting.value, DEFAULT_HEADER_TABLE_SIZE));
+                    }
+                }
                 spdlog::debug("read {} settings, sending ACK", settings->size());
                 write_settings_ack();
             }
-- 
2.43.0


From 78aa7a73aec9f166db75861b5c23cfd3ec357010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:18 +0000
Subject: [PATCH 14/44] fix: send a status with the response to a request
 without :method or :path

Its header block was empty, which is not a valid response.
---
 lib/http2_conn.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index a53d5e9..75c6286 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -457,6 +457,16 @@ static std::optional<std::string> get_header(const std::vector<HttpHeader>& head
     return it->value;
 }
 
+static void add_response_headers(HttpResponse& resp) {
+    resp.headers.insert(resp.headers.begin(),
+                        HttpHeader{":status", std::to_string(resp.status_code)});
+    if (!resp.body.empty()) {
+        resp.headers.push_back({"content-length", std::to_string(resp.body.size())});
+    }
+    resp.headers.push_back({"server", std::string{SERVER_HEADER}});
+    resp.headers.push_back({"x-powered-by", std::string{SERVER_HEADER}});
+}
+
 HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& headers,
                                               SpanPtr span) {
     auto path = get_header(headers, ":path");
@@ -464,7 +474,9 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
 
     if (!path || !method) {
         spdlog::error("invalid request: missing path or method");
-        return HttpResponse{.status_code = 400};
+        HttpResponse resp{.status_code = 400};
+        add_response_headers(resp);
+        return resp;
     }
 
     span->SetAttribute("http.method", *method);
@@ -484,13 +496,7 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
 
     span->SetAttribute("http.status_code", resp.status_code);
 
-    resp.headers.insert(resp.headers.begin(),
-                        HttpHeader{":status", std::to_string(resp.status_code)});
-    if (!resp.body.empty()) {
-        resp.headers.push_back({"content-length", std::to_string(resp.body.size())});
-    }
-    resp.headers.push_back({"server", std::string{SERVER_HEADER}});
-    resp.headers.push_back({"x-powered-by", std::string{SERVER_HEADER}});
+    add_response_headers(resp);
     return resp;
 }
 
-- 
2.43.0


From ebf059a9b7196ee4321dd3fcfe0af67f95a27fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:18 +0000
Subject: [PATCH 15/44] fix: answer 500 whatever a handler throws

An exception not derived from std::exception ended the server.
---
 lib/http2_conn.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 75c6286..86fb431 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -492,6 +492,9 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
     } catch (const std::exception& e) {
         spdlog::error("error processing request: {}", e.what());
         resp = HttpResponse{.status_code = 500};
+    } catch (...) {
+        spdlog::error("error processing request: unknown exception");
+        resp = HttpResponse{.status_code = 500};
     }
 
     span->SetAttribute("http.status_code", resp.status_code);
-- 
2.43.0


From 4d955f0d35294204a081ef8e80f6feecb59fc151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 16/44] fix: split response header blocks larger than a frame
 into CONTINUATION frames

They were sent as one HEADERS frame above the client's SETTINGS_MAX_FRAME_SIZE.
---
 lib/http2_conn.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 86fb431..4b1f5c5 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -20,6 +20,7 @@ static constexpr uint8_t FRAME_TYPE_HEADERS = 0x01;
 static constexpr uint8_t FRAME_TYPE_SETTINGS = 0x04;
 static constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
 static constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
+static constexpr uint8_t FRAME_TYPE_CONTINUATION = 0x09;
 
 static constexpr uint16_t SETTINGS_HEADER_TABLE_SIZE = 0x0001;
 
@@ -75,13 +76,22 @@ void Http2Connection::write_settings_ack() {
 
 void Http2Connection::write_headers_response(uint32_t stream_id,
                                              std::span<const uint8_t> headers_data, uint8_t flags) {
-    const Http2FrameHeader header{.length = static_cast<uint32_t>(headers_data.size()),
-                                  .type = FRAME_TYPE_HEADERS,
-                                  .flags = flags,
-                                  .stream_id = stream_id};
-
-    write_frame_header(header);
-    enqueue_write(headers_data);
+    uint8_t type = FRAME_TYPE_HEADERS;
+    do {
+        const auto fragment = headers_data.first(std::min(headers_data.size(), MAX_FRAME_SIZE));
+        headers_data = headers_data.subspan(fragment.size());
+
+        // the rest of a block too large for one frame follows in CONTINUATION frames
+        const auto end_headers = headers_data.empty() ? FLAG_END_HEADERS : static_cast<uint8_t>(0);
+        write_frame_header({.length = static_cast<uint32_t>(fragment.size()),
+                            .type = type,
+                            .flags = static_cast<uint8_t>(flags | end_headers),
+                            .stream_id = stream_id});
+        enqueue_write(fragment);
+
+        type = FRAME_TYPE_CONTINUATION;
+        flags = 0;
+    } while (!headers_data.empty());
 }
 
 void Http2Connection::write_data_response(uint32_t stream_id, const std::vector<uint8_t>& body) {
@@ -283,7 +293,7 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
 
             auto ending_stream = resp.body.empty();
             write_headers_response(frame.stream_id(), hdrs_bytes,
-                                   FLAG_END_HEADERS | (ending_stream ? FLAG_END_STREAM : 0));
+                                   ending_stream ? FLAG_END_STREAM : static_cast<uint8_t>(0));
             spdlog::info(std::format("{} status code sent w/headers", resp.status_code));
 
             if (!ending_stream) {
-- 
2.43.0


From 2019cb59c05f3e914db00bfff7a9f27d204445ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 17/44] fix: keep serving when a connection cannot be accepted

A connection aborted before accept, or running out of descriptors, ended the server.
---
 lib/tcp_listener.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lib/tcp_listener.cpp b/lib/tcp_listener.cpp
index c9a2038..c6902e4 100644
--- a/lib/tcp_listener.cpp
+++ b/lib/tcp_listener.cpp
@@ -80,6 +80,22 @@ void TcpListener::set_tcp_no_delay(const SocketFd& client_fd) {
     }
 }
 
+// errors of the connection being accepted or due to a shortage, not of the listening socket
+static bool is_transient_accept_error(int error) {
+    switch (error) {
+        case ECONNABORTED:
+        case EPROTO:
+        case EPERM:
+        case EMFILE:
+        case ENFILE:
+        case ENOBUFS:
+        case ENOMEM:
+            return true;
+        default:
+            return false;
+    }
+}
+
 std::optional<SocketFd> TcpListener::try_accept() {
     sockaddr_in client_addr{};
     socklen_t client_len = sizeof(client_addr);
@@ -96,6 +112,11 @@ std::optional<SocketFd> TcpListener::try_accept() {
         return std::nullopt;
     }
 
+    if (is_transient_accept_error(errno)) {
+        spdlog::warn("failed to accept connection: {}", strerror(errno));
+        return std::nullopt;
+    }
+
     throw std::system_error(errno, std::system_category(), "accept");
 }
 
-- 
2.43.0


From c56e52cb78c1837ebf774ec3ad8210ceaf3ada14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:39 +0000
Subject: [PATCH 18/44] fix: send SETTINGS as soon as the client preface has
 arrived

They stayed in the write buffer until the client sent something more.
---
 lib/http2_conn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 4b1f5c5..467f983 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -396,7 +396,7 @@ Http2ProcessResult Http2Connection::internal_process() {
             case Http2ConnectionState::AwaitingPreface: {
                 switch (read_preface()) {
                     case ReadPrefaceResult::Success:
-                        break;
+                        continue;  // sends our SETTINGS
                     case ReadPrefaceResult::NotEnoughData:
                         return Http2ProcessResult::WantRead;
                     case ReadPrefaceResult::ProtocolError:
-- 
2.43.0


From dcf2721543b2faf8aafb6e61fac341dc7a0f62dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:39 +0000
Subject: [PATCH 19/44] fix: send the GOAWAY frame before discarding a
 connection after a protocol error

It was left in the write buffer.
---
 lib/http2_conn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 467f983..cf09a67 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -419,6 +419,7 @@ Http2ProcessResult Http2Connection::internal_process() {
             case Http2ConnectionState::ProtocolError: {
                 spdlog::error("protocol error. closing connection");
                 close();
+                flush_write_buffer();
                 return Http2ProcessResult::DiscardConnection;
             }
             case Http2ConnectionState::ClientClosed: {
-- 
2.43.0


From ac8efd27dd7761964da2108158bad4bf7245cc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:39 +0000
Subject: [PATCH 20/44] fix: answer requests received together with the end of
 the client's stream

A client that closed its sending side right after its requests got no response when both
arrived in the same read.
---
 lib/http2_conn.cpp | 14 +++++++++++---
 lib/http2_conn.h   |  2 ++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index cf09a67..acb079f 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -160,7 +160,7 @@ void Http2Connection::fill_read_buffer() {
                     break;
                 case TransportError::ConnectionClosed:
                     spdlog::debug("transport connection closed");
-                    update_state(Http2ConnectionState::ClientClosed);
+                    read_closed_ = true;  // what was received before is still processed
                     break;
                 case TransportError::ProtocolError:
                     spdlog::error("transport protocol error");
@@ -398,7 +398,7 @@ Http2ProcessResult Http2Connection::internal_process() {
                     case ReadPrefaceResult::Success:
                         continue;  // sends our SETTINGS
                     case ReadPrefaceResult::NotEnoughData:
-                        return Http2ProcessResult::WantRead;
+                        return want_read();
                     case ReadPrefaceResult::ProtocolError:
                         return Http2ProcessResult::DiscardConnection;
                 }
@@ -408,7 +408,7 @@ Http2ProcessResult Http2Connection::internal_process() {
                     spdlog::debug("frame processed, continuing...");
                     break;
                 }
-                return Http2ProcessResult::WantRead;
+                return want_read();
             }
             case Http2ConnectionState::Closing: {
                 spdlog::debug("in closing state, completing shutdown");
@@ -432,6 +432,14 @@ Http2ProcessResult Http2Connection::internal_process() {
     }
 }
 
+Http2ProcessResult Http2Connection::want_read() {
+    if (read_closed_) {
+        update_state(Http2ConnectionState::ClientClosed);
+        return Http2ProcessResult::DiscardConnection;
+    }
+    return Http2ProcessResult::WantRead;
+}
+
 void Http2Connection::close() {
     if (state_ == Http2ConnectionState::Closing) {
         spdlog::error("attempting to close connection in closing state");
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 908d615..e3353af 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -55,6 +55,7 @@ class Http2Connection {
     const Router& router_;
     std::vector<uint8_t> read_buffer_;
     std::vector<uint8_t> write_buffer_;
+    bool read_closed_ = false;
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
     DynamicTable encoder_dynamic_table_{DEFAULT_HEADER_TABLE_SIZE};
@@ -63,6 +64,7 @@ class Http2Connection {
     std::chrono::steady_clock::time_point last_activity_{std::chrono::steady_clock::now()};
 
     Http2ProcessResult internal_process();
+    Http2ProcessResult want_read();
     ReadPrefaceResult read_preface();
     Http2WindowUpdate process_window_update_payload(std::span<const uint8_t> payload);
     bool try_read_frame();
-- 
2.43.0


From 815d652aa5dbe0459587b06969a6b7680fc83230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:03 +0000
Subject: [PATCH 21/44] fix: do not let a huge count wrap around in
 ByteReader::has_bytes

---
 lib/hpack/byte_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hpack/byte_reader.cpp b/lib/hpack/byte_reader.cpp
index 5d255e8..9d1ffd8 100644
--- a/lib/hpack/byte_reader.cpp
+++ b/lib/hpack/byte_reader.cpp
@@ -1,7 +1,7 @@
 #include "byte_reader.h"
 
 bool ByteReader::has_bytes(std::size_t count) const {
-    return pos_ + count <= data_.size();
+    return count <= data_.size() - pos_;  // pos_ + count could wrap around
 }
 
 std::expected<uint8_t, ByteReaderError> ByteReader::read_byte() {
-- 
2.43.0


From 7aebded2b5a58b50fe4fd12460ee8b7a112867b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 22/44] fix: discard a connection that can no longer be written
 to instead of waiting for it

---
 lib/http2_conn.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index acb079f..51d5ce0 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -543,7 +543,8 @@ void Http2Connection::flush_write_buffer() {
         } else {
             spdlog::error("failed to flush write buffer: error: {}",
                           static_cast<int>(result.error()));
-            update_state(Http2ConnectionState::ProtocolError);
+            write_buffer_.clear();  // nothing can reach the client any more
+            update_state(Http2ConnectionState::ClientClosed);
         }
         return;
     }
-- 
2.43.0


From 4286f5d6648a23c45c6ddb301e95214cc46ce6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 23/44] fix: refuse file paths with a null character instead of
 serving what precedes it

---
 lib/file_reader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/file_reader.cpp b/lib/file_reader.cpp
index f7e4ce2..5ec6672 100644
--- a/lib/file_reader.cpp
+++ b/lib/file_reader.cpp
@@ -98,6 +98,12 @@ bool FileReader::is_readable(const std::string& path) {
 
 std::optional<std::string> FileReader::sanitize_path(const std::string& base_dir,
                                                      const std::string& requested_path) {
+    // file system calls would only see what comes before it
+    if (requested_path.find('\0') != std::string::npos) {
+        spdlog::warn("Path error: requested path contains a null character");
+        return std::nullopt;
+    }
+
     try {
         namespace fs = std::filesystem;
 
-- 
2.43.0


From 19f05d26fb536063b4eba2e89dd2812bd4d6bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 24/44] fix: follow links in file paths also after a missing
 component and ".."

---
 lib/file_reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/file_reader.cpp b/lib/file_reader.cpp
index 5ec6672..fbce624 100644
--- a/lib/file_reader.cpp
+++ b/lib/file_reader.cpp
@@ -122,6 +122,9 @@ std::optional<std::string> FileReader::sanitize_path(const std::string& base_dir
 
         // Normalize the combined path (resolve .. and . where possible without requiring the leaf)
         auto full = fs::weakly_canonical(combined);
+        // A ".." after a component that does not exist is removed without following the links in
+        // what comes after it; now that there are none left, follow those too
+        full = fs::weakly_canonical(full);
 
         // Ensure the resolved path is within the base directory by comparing path components
         auto base_it = base.begin();
-- 
2.43.0


From ec781b4b37e1268aa30faa6dc7d2a9022e0ae423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 25/44] fix: log the method and path a request is handled by,
 not a later repetition

---
 lib/access_log.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/access_log.cpp b/lib/access_log.cpp
index 3c0c57a..9a1957a 100644
--- a/lib/access_log.cpp
+++ b/lib/access_log.cpp
@@ -3,6 +3,7 @@
 #include <spdlog/spdlog.h>
 
 #include <format>
+#include <optional>
 
 #include "system_clock.h"
 
@@ -31,16 +32,17 @@ void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t statu
         return;
     }
 
-    std::string method{"-"};
-    std::string path{"-"};
+    std::optional<std::string> method;
+    std::optional<std::string> path;
     std::string user_agent{"-"};
     std::string referrer{"-"};
 
     for (const auto& [name, value] : req_headers) {
-        if (name == ":method") {
+        // the first of each is what the request is handled by
+        if (name == ":method" && !method) {
             method = escape(value, true);
         }
-        if (name == ":path") {
+        if (name == ":path" && !path) {
             path = escape(value, true);
         }
         if (name == "user-agent") {
@@ -52,8 +54,9 @@ void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t statu
     }
     const auto entry =
         std::format(R"({} - - {} "{} {} HTTP/2" {} {} "{}" "{}")",
-                    (client_ip.empty() ? "-" : client_ip), SystemClock::clf_timestamp(), method,
-                    path, status_code, content_length, referrer, user_agent);
+                    (client_ip.empty() ? "-" : client_ip), SystemClock::clf_timestamp(),
+                    method.value_or("-"), path.value_or("-"), status_code, content_length,
+                    referrer, user_agent);
     access_log->info(entry);
 }
 
-- 
2.43.0


From 6f520d9e8f634905ea081326fcc862e2c2c1a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:04 +0000
Subject: [PATCH 26/44] fix: count failed requests as 500 on the status page

---
 app/server_stats.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/app/server_stats.cpp b/app/server_stats.cpp
index af5448c..6f3acd4 100644
--- a/app/server_stats.cpp
+++ b/app/server_stats.cpp
@@ -20,14 +20,22 @@ ion::Middleware ServerStats::middleware() {
             stats.total_requests++;
             const auto start = std::chrono::steady_clock::now();
 
-            auto res = next(req);
+            const auto completed = [&stats, start](uint16_t status_code) {
+                const auto end = std::chrono::steady_clock::now();
+                const auto duration =
+                    std::chrono::duration_cast<std::chrono::microseconds>(end - start).count();
+                stats.total_duration_us += duration;
+                stats.status_codes[status_code]++;
+            };
 
-            const auto end = std::chrono::steady_clock::now();
-            const auto duration =
-                std::chrono::duration_cast<std::chrono::microseconds>(end - start).count();
-            stats.total_duration_us += duration;
-            stats.status_codes[res.status_code]++;
-            return res;
+            try {
+                auto res = next(req);
+                completed(res.status_code);
+                return res;
+            } catch (...) {
+                completed(500);  // what the client gets
+                throw;
+            }
         };
     };
 }
-- 
2.43.0


From 944dc9c19bab7b122ebcd294edfa7b1acbd45c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:57 +0000
Subject: [PATCH 27/44] fix: count a large TLS response that is still flowing
 as activity

SSL_write reported a large write only once all of it was done, so a connection whose client
takes more than five seconds to read a response was closed as idle although data was flowing.
---
 lib/transports/tls_context.cpp   |  3 ++
 lib/transports/tls_transport.cpp | 60 ++++++++++++++++++--------------
 2 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/lib/transports/tls_context.cpp b/lib/transports/tls_context.cpp
index d05d2ad..1459d90 100644
--- a/lib/transports/tls_context.cpp
+++ b/lib/transports/tls_context.cpp
@@ -37,6 +37,9 @@ TlsContext::TlsContext(const std::filesystem::path& cert_path,
         throw std::runtime_error("private key does not match certificate");
     }
 
+    // what a large write has left is written from another address
+    SSL_CTX_set_mode(ctx_, SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
+
     SSL_CTX_set_alpn_select_cb(ctx_, alpn_callback, nullptr);
 
     SSL_CTX_set_keylog_callback(ctx_, [](const SSL*, const char* line) {
diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 95cafcf..d0df6d6 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -8,6 +8,7 @@
 #include <sys/poll.h>
 #include <unistd.h>
 
+#include <algorithm>
 #include <fstream>
 
 namespace ion {
@@ -120,33 +121,40 @@ std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buf
 }
 
 std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8_t> buffer) const {
-    ERR_clear_error();  // SSL_get_error also looks at errors left by other connections
-    const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(buffer.size()));
-    if (bytes_written < 0) {
-        switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
-            case SSL_ERROR_WANT_READ:
-                spdlog::trace("SSL want read");
-                return std::unexpected(TransportError::WantReadOrWrite);
-            case SSL_ERROR_WANT_WRITE:
-                spdlog::trace("SSL want write");
-                return std::unexpected(TransportError::WantReadOrWrite);
-            case SSL_ERROR_ZERO_RETURN:
-                spdlog::debug("TLS connection closed");
-                return std::unexpected(TransportError::ConnectionClosed);
-            case SSL_ERROR_SSL:
-                spdlog::error("TLS protocol error (SSL_ERROR_SSL)");
-                return std::unexpected(TransportError::ProtocolError);
-            default:
-                spdlog::error("TLS protocol error (SSL_ERROR={})", ssl_error);
-                return std::unexpected(TransportError::ProtocolError);
+    // record by record, to report what was written so far instead of only the completion of a large
+    // write: a connection must not be taken for idle meanwhile
+    ssize_t total = 0;
+    do {
+        ERR_clear_error();  // SSL_get_error also looks at errors left by other connections
+        const auto rest = buffer.subspan(static_cast<size_t>(total));
+        const auto record = rest.first(std::min<size_t>(rest.size(), SSL3_RT_MAX_PLAIN_LENGTH));
+        const auto bytes_written = SSL_write(ssl_, record.data(), static_cast<int>(record.size()));
+        if (bytes_written < 0 || (bytes_written == 0 && !record.empty())) {
+            if (total > 0) {
+                break;  // the caller learns about it when it writes the rest
+            }
+            switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
+                case SSL_ERROR_WANT_READ:
+                    spdlog::trace("SSL want read");
+                    return std::unexpected(TransportError::WantReadOrWrite);
+                case SSL_ERROR_WANT_WRITE:
+                    spdlog::trace("SSL want write");
+                    return std::unexpected(TransportError::WantReadOrWrite);
+                case SSL_ERROR_ZERO_RETURN:
+                    spdlog::debug("TLS connection closed");
+                    return std::unexpected(TransportError::ConnectionClosed);
+                case SSL_ERROR_SSL:
+                    spdlog::error("TLS protocol error (SSL_ERROR_SSL)");
+                    return std::unexpected(TransportError::ProtocolError);
+                default:
+                    spdlog::error("TLS protocol error (SSL_ERROR={})", ssl_error);
+                    return std::unexpected(TransportError::ProtocolError);
+            }
         }
-    }
-    if (bytes_written != static_cast<int>(buffer.size())) {
-        spdlog::error("SSL partial write: wrote {} of {} bytes", bytes_written, buffer.size());
-        return std::unexpected(TransportError::WriteError);
-    }
-    spdlog::trace("successfully wrote {} bytes to SSL", bytes_written);
-    return bytes_written;
+        total += bytes_written;
+    } while (total < static_cast<ssize_t>(buffer.size()));
+    spdlog::trace("successfully wrote {} bytes to SSL", total);
+    return total;
 }
 
 }  // namespace ion
-- 
2.43.0


From f624dd7bba6cb58e2da2635e06e1c99d1274cfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:42 +0000
Subject: [PATCH 28/44] fix: accept log levels in any case instead of aborting
 on them

--log-level ignores the case when validating but looked up what was typed.
---
 app/args.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/args.cpp b/app/args.cpp
index 56a6f66..3454c62 100644
--- a/app/args.cpp
+++ b/app/args.cpp
@@ -14,8 +14,8 @@ Args Args::register_opts(CLI::App& app) {
     app.add_option("--log-level,-l", args.log_level,
                    "Set logging level (trace, debug, info, warn, error, critical, off)")
         ->default_val(DEFAULT_LOG_LEVEL)
-        ->check(CLI::IsMember({"trace", "debug", "info", "warn", "error", "critical", "off"},
-                              CLI::ignore_case));
+        ->transform(CLI::IsMember({"trace", "debug", "info", "warn", "error", "critical", "off"},
+                                  CLI::ignore_case));
     app.add_option("--static,-s", args.static_map,
                    "Map URL prefix to directory. Usage: --static /url/path ./fs/path")
         ->expected(2);
-- 
2.43.0


From 61f2376f90b4334e7621942d3c73c4a02b4fb818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:42 +0000
Subject: [PATCH 29/44] fix: answer HEAD with the custom 404 page's headers
 only

---
 app/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/main.cpp b/app/main.cpp
index 66dc04a..ec8adee 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -46,8 +46,8 @@ void run_server(const Args& args) {
                 auto res = next(req);
 
                 if (res.status_code == 404) {
-                    auto file_res =
-                        ion::StaticFileHandler::file_response(args.status_404_file_path, false);
+                    auto file_res = ion::StaticFileHandler::file_response(
+                        args.status_404_file_path, req.method == "HEAD");
                     file_res.status_code = 404;
                     return file_res;
                 }
-- 
2.43.0


From 4699992d9ac52dee6bc39b146b0c264c56f22235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:42 +0000
Subject: [PATCH 30/44] fix: write access logs also when the log level is above
 info

---
 app/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/main.cpp b/app/main.cpp
index ec8adee..ec1b5b6 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -67,6 +67,7 @@ void setup_access_logs(const std::string& log_path) {
     try {
         auto logger = spdlog::basic_logger_mt(ion::AccessLog::ACCESS_LOGGER_NAME, log_path);
         logger->set_pattern("%v");
+        logger->set_level(spdlog::level::info);  // whatever the level of the application log
         logger->flush_on(spdlog::level::info);
         spdlog::info("writing access logs to {}", log_path);
     } catch (const spdlog::spdlog_ex& e) {
-- 
2.43.0


From ca19076a74e0437ba84277176b7e72d796886cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:51 +0000
Subject: [PATCH 31/44] fix: apply the log level and format before the first
 line is logged

---
 app/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/main.cpp b/app/main.cpp
index ec1b5b6..aa0c24c 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -99,14 +99,14 @@ int main(int argc, char* argv[]) {
         return app.exit(e);
     }
 
-    auto telemetry = configure_telemetry();
-
     auto formatter = std::make_unique<spdlog::pattern_formatter>();
     formatter->add_flag<ion::app::TraceIdFlag>('J');
     formatter->set_pattern("[%Y-%m-%d %H:%M:%S.%e] [%l] %J%v");
     spdlog::set_formatter(std::move(formatter));
     spdlog::set_level(args.log_level_enum());
 
+    auto telemetry = configure_telemetry();
+
     spdlog::info("ion {} started ⚡️", ion::BUILD_VERSION);
     try {
         enable_no_new_privs_on_linux();
-- 
2.43.0


From 46e230e25370ca8e2e16828383dae40174bf4efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:51 +0000
Subject: [PATCH 32/44] fix: keep what clients send from starting new lines in
 the application log

---
 app/main.cpp       |  4 +++-
 app/message_flag.h | 29 +++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)
 create mode 100644 app/message_flag.h

diff --git a/app/main.cpp b/app/main.cpp
index aa0c24c..4bf35ec 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -8,6 +8,7 @@
 #include "access_log.h"
 #include "args.h"
 #include "http2_server.h"
+#include "message_flag.h"
 #include "proc_ctrl.h"
 #include "signal_handler.h"
 #include "spdlog/sinks/basic_file_sink.h"
@@ -101,7 +102,8 @@ int main(int argc, char* argv[]) {
 
     auto formatter = std::make_unique<spdlog::pattern_formatter>();
     formatter->add_flag<ion::app::TraceIdFlag>('J');
-    formatter->set_pattern("[%Y-%m-%d %H:%M:%S.%e] [%l] %J%v");
+    formatter->add_flag<ion::app::MessageFlag>('K');
+    formatter->set_pattern("[%Y-%m-%d %H:%M:%S.%e] [%l] %J%K");
     spdlog::set_formatter(std::move(formatter));
     spdlog::set_level(args.log_level_enum());
 
diff --git a/app/message_flag.h b/app/message_flag.h
new file mode 100644
index 0000000..9512886
--- /dev/null
+++ b/app/message_flag.h
@@ -0,0 +1,29 @@
+#pragma once
+#include <spdlog/pattern_formatter.h>
+
+#include <format>
+
+namespace ion::app {
+
+// The text of a log message. It may quote what a client sent, which must not start new lines.
+class MessageFlag : public spdlog::custom_flag_formatter {
+   public:
+    void format(const spdlog::details::log_msg& msg, const std::tm&,
+                spdlog::memory_buf_t& dest) override {
+        for (const char c : msg.payload) {
+            const auto octet = static_cast<uint8_t>(c);
+            if (octet < 0x20 || octet == 0x7f) {
+                const auto escaped = std::format("\\x{:02X}", octet);
+                dest.append(escaped.data(), escaped.data() + escaped.size());
+            } else {
+                dest.push_back(c);
+            }
+        }
+    }
+
+    std::unique_ptr<custom_flag_formatter> clone() const override {
+        return std::make_unique<MessageFlag>();
+    }
+};
+
+}  // namespace ion::app
-- 
2.43.0


From 4ce4a6a08334e351f7fc23bb34ff6cb52462d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:51 +0000
Subject: [PATCH 33/44] fix: do not spin on readable data while blocked on
 writing

---
 lib/http2_server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index ec21578..aa20a71 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -104,7 +104,8 @@ void Http2Server::handle_connection_events(Poller& poller, int fd, PollEventType
     switch (conn->process()) {
         case Http2ProcessResult::WantWrite:
             spdlog::trace("will poll write events for fd {}", fd);
-            poller.set(fd, PollEventType::Read | PollEventType::Write);
+            // nothing is read until then, so data that could be must not wake us up
+            poller.set(fd, PollEventType::Write);
             break;
         case Http2ProcessResult::WantRead:
             // interest is already Read (or was reset above), just keep waiting
-- 
2.43.0


From ab10833441619063ae9eda13dabe2cf6a512b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 34/44] fix: read header blocks that are continued in
 CONTINUATION frames

---
 lib/http2_conn.cpp | 51 +++++++++++++++++++++++++++++++++++++++++++++-
 lib/http2_conn.h   |  4 ++++
 2 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 51d5ce0..8ff48fc 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -29,6 +29,7 @@ static constexpr uint8_t FLAG_END_STREAM = 0x01;
 
 static constexpr size_t MAX_READ_BUFFER_SIZE = 64 * 1024;
 static constexpr size_t MAX_FRAME_SIZE = 16384;
+static constexpr size_t MAX_HEADER_BLOCK_SIZE = 64 * 1024;
 static constexpr size_t INITIAL_READ_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t INITIAL_WRITE_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t TEMP_READ_BUFFER_SIZE = 16 * 1024;
@@ -233,11 +234,59 @@ bool Http2Connection::try_read_frame() {
     }
 
     Http2FrameReader frame{header, buffer.subspan(Http2FrameHeader::wire_size, header.length)};
-    process_frame(frame);
+    if (continued_headers_ || frame.type() == FRAME_TYPE_CONTINUATION ||
+        (frame.type() == FRAME_TYPE_HEADERS && !frame.is_end_headers())) {
+        process_continued_headers(frame);
+    } else {
+        process_frame(frame);
+    }
     discard_processed_buffer(total_frame_size);
     return true;
 }
 
+// Collects a header block that is split over a HEADERS frame and CONTINUATION frames, between which
+// nothing else may come, and processes it once it is complete.
+void Http2Connection::process_continued_headers(const Http2FrameReader& frame) {
+    if (!continued_headers_ && frame.type() == FRAME_TYPE_HEADERS) {
+        const auto fragment = frame.read_headers_block();
+        if (!fragment) {
+            update_state(Http2ConnectionState::ProtocolError);
+            return;
+        }
+        continued_headers_ =
+            Http2FrameHeader{.length = 0,
+                             .type = FRAME_TYPE_HEADERS,
+                             .flags = static_cast<uint8_t>(frame.flags() & FLAG_END_STREAM),
+                             .stream_id = frame.stream_id()};
+        continued_block_.assign(fragment->begin(), fragment->end());
+        return;
+    }
+
+    if (!continued_headers_ || frame.type() != FRAME_TYPE_CONTINUATION ||
+        frame.stream_id() != continued_headers_->stream_id) {
+        spdlog::error("header block not continued properly (frame type: {})", frame.type());
+        update_state(Http2ConnectionState::ProtocolError);
+        return;
+    }
+    if (continued_block_.size() + frame.length() > MAX_HEADER_BLOCK_SIZE) {
+        spdlog::error("header block too large (max: {})", MAX_HEADER_BLOCK_SIZE);
+        update_state(Http2ConnectionState::ProtocolError);
+        return;
+    }
+    continued_block_.insert(continued_block_.end(), frame.payload().begin(),
+                            frame.payload().end());
+
+    if (frame.is_end_headers()) {
+        auto header = *continued_headers_;
+        header.flags |= FLAG_END_HEADERS;
+        header.length = static_cast<uint32_t>(continued_block_.size());
+        const auto block = std::move(continued_block_);
+        continued_block_ = {};
+        continued_headers_.reset();
+        process_frame(Http2FrameReader{header, block});
+    }
+}
+
 void Http2Connection::process_frame(const Http2FrameReader& frame) {
     switch (frame.type()) {
         case FRAME_TYPE_SETTINGS: {
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index e3353af..225041e 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -2,6 +2,7 @@
 #include <opentelemetry/trace/span.h>
 
 #include <chrono>
+#include <optional>
 #include <span>
 #include <vector>
 
@@ -62,6 +63,8 @@ class Http2Connection {
     HeaderBlockDecoder decoder_{decoder_dynamic_table_};
     HeaderBlockEncoder encoder_{encoder_dynamic_table_};
     std::chrono::steady_clock::time_point last_activity_{std::chrono::steady_clock::now()};
+    std::optional<Http2FrameHeader> continued_headers_;  // the HEADERS frame, until END_HEADERS
+    std::vector<uint8_t> continued_block_;
 
     Http2ProcessResult internal_process();
     Http2ProcessResult want_read();
@@ -79,6 +82,7 @@ class Http2Connection {
     void write_goaway(uint32_t last_stream_id, ErrorCode error_code);
     void write_settings();
     void process_frame(const Http2FrameReader& frame);
+    void process_continued_headers(const Http2FrameReader& frame);
     void update_state(Http2ConnectionState new_state);
     void log_dynamic_tables();
     HttpResponse process_request(const std::vector<HttpHeader>& req_hdrs, SpanPtr span);
-- 
2.43.0


From 50d3d4d4b428e40233784beb5a3cf5a901ac87d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:02 +0000
Subject: [PATCH 35/44] fix: acknowledge PING frames

---
 lib/http2_conn.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 8ff48fc..f4d4d07 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -18,6 +18,7 @@ static constexpr std::string_view CLIENT_PREFACE{"PRI * HTTP/2.0\r\n\r\nSM\r\n\r
 static constexpr uint8_t FRAME_TYPE_DATA = 0x00;
 static constexpr uint8_t FRAME_TYPE_HEADERS = 0x01;
 static constexpr uint8_t FRAME_TYPE_SETTINGS = 0x04;
+static constexpr uint8_t FRAME_TYPE_PING = 0x06;
 static constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
 static constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
 static constexpr uint8_t FRAME_TYPE_CONTINUATION = 0x09;
@@ -26,10 +27,12 @@ static constexpr uint16_t SETTINGS_HEADER_TABLE_SIZE = 0x0001;
 
 static constexpr uint8_t FLAG_END_HEADERS = 0x04;
 static constexpr uint8_t FLAG_END_STREAM = 0x01;
+static constexpr uint8_t FLAG_ACK = 0x01;
 
 static constexpr size_t MAX_READ_BUFFER_SIZE = 64 * 1024;
 static constexpr size_t MAX_FRAME_SIZE = 16384;
 static constexpr size_t MAX_HEADER_BLOCK_SIZE = 64 * 1024;
+static constexpr size_t PING_PAYLOAD_SIZE = 8;
 static constexpr size_t INITIAL_READ_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t INITIAL_WRITE_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t TEMP_READ_BUFFER_SIZE = 16 * 1024;
@@ -363,6 +366,21 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
             spdlog::debug("window size increment = {}", window_update->window_size_increment);
             break;
         }
+        case FRAME_TYPE_PING: {
+            spdlog::debug("received PING frame (flags={})", frame.flags());
+            if (frame.length() != PING_PAYLOAD_SIZE) {
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
+            if (!frame.has_flag(FLAG_ACK)) {
+                write_frame_header({.length = frame.length(),
+                                    .type = FRAME_TYPE_PING,
+                                    .flags = FLAG_ACK,
+                                    .stream_id = 0});
+                enqueue_write(frame.payload());
+            }
+            break;
+        }
         case FRAME_TYPE_GOAWAY: {
             spdlog::debug("received GOAWAY frame (stream {})", frame.stream_id());
             update_state(Http2ConnectionState::ClientClosed);
-- 
2.43.0


From 2d3e4f991eb22f92aa2afb0453fd70fe1ae83cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 36/44] fix: name the last stream that was processed in GOAWAY

It was always stream 1, so that a client had to conclude that its later requests were not acted on and
may be sent again, although they had been handled and answered.
---
 lib/http2_conn.cpp | 6 ++++--
 lib/http2_conn.h   | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index f4d4d07..e0146c8 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -339,6 +339,7 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                 spdlog::debug(" - request header: {}: {}", hdr.name, hdr.value);
             }
 
+            last_stream_id_ = std::max(last_stream_id_, frame.stream_id());
             auto resp = process_request(*hdrs, span);
             auto hdrs_bytes = encoder_.encode(resp.headers);
             log_dynamic_tables();
@@ -512,8 +513,9 @@ void Http2Connection::close() {
         spdlog::error("attempting to close connection in closing state");
         return;
     }
-    write_goaway(1, (state_ != Http2ConnectionState::ProtocolError) ? ErrorCode::no_error
-                                                                    : ErrorCode::protocol_error);
+    write_goaway(last_stream_id_, (state_ != Http2ConnectionState::ProtocolError)
+                                      ? ErrorCode::no_error
+                                      : ErrorCode::protocol_error);
     spdlog::debug("GOAWAY frame enqueued");
     update_state(Http2ConnectionState::Closing);
 }
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 225041e..114a8cd 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -57,6 +57,7 @@ class Http2Connection {
     std::vector<uint8_t> read_buffer_;
     std::vector<uint8_t> write_buffer_;
     bool read_closed_ = false;
+    uint32_t last_stream_id_ = 0;  // the highest that a request was processed on
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
     DynamicTable encoder_dynamic_table_{DEFAULT_HEADER_TABLE_SIZE};
-- 
2.43.0


From 94d428a60651f0f85269058a49205c04da9a4202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:55 +0000
Subject: [PATCH 37/44] fix: limit the size of the header list a block decodes
 to

A field can be a one-octet reference to a table entry of up to 4 KB, so that a header block of 64 KB
made the server allocate several hundred megabytes for one request.
---
 lib/hpack/dynamic_table.h          |  2 +-
 lib/hpack/header_block_decoder.cpp | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/hpack/dynamic_table.h b/lib/hpack/dynamic_table.h
index 0b0748e..ff4f48b 100644
--- a/lib/hpack/dynamic_table.h
+++ b/lib/hpack/dynamic_table.h
@@ -23,12 +23,12 @@ class DynamicTable {
     void log_contents() const;
     int size() const;
     void set_max_table_size(size_t new_sz);
+    static size_t get_header_entry_size(const HttpHeader& header);
 
    private:
     std::deque<HttpHeader> table_{};
     size_t table_size_{};
     size_t max_table_size_{};
-    static size_t get_header_entry_size(const HttpHeader& header);
 };
 
 }  // namespace ion
diff --git a/lib/hpack/header_block_decoder.cpp b/lib/hpack/header_block_decoder.cpp
index 69cc6f1..fc9714d 100644
--- a/lib/hpack/header_block_decoder.cpp
+++ b/lib/hpack/header_block_decoder.cpp
@@ -15,6 +15,10 @@ namespace ion {
 
 static constexpr size_t MAX_HEADER_STRING_LENGTH = 4 * 1024;
 
+// All fields of a block together, each counted like an entry of the dynamic table. One octet of the
+// block can stand for an entry of any size.
+static constexpr size_t MAX_HEADER_LIST_SIZE = 256 * 1024;
+
 static void populate_huffman_tree(HuffmanTree& tree) {
     for (uint16_t i = 0; i < static_cast<uint16_t>(HUFFMAN_CODES.size()); i++) {
         auto code = HUFFMAN_CODES[i];
@@ -191,8 +195,10 @@ std::expected<std::vector<HttpHeader>, FrameError> HeaderBlockDecoder::decode(
     std::span<const uint8_t> data) {
     auto hdrs = std::vector<HttpHeader>{};
     ByteReader reader(data);
+    size_t list_size = 0;
 
     while (reader.has_bytes()) {
+        const size_t fields_before = hdrs.size();
         uint8_t first_byte = *reader.peek_byte();
         auto type = HeaderField::from_byte(first_byte);
         spdlog::trace("header type: {}, byte: 0x{:02X}", HeaderField::to_string(type), first_byte);
@@ -234,6 +240,15 @@ std::expected<std::vector<HttpHeader>, FrameError> HeaderBlockDecoder::decode(
                 return std::unexpected(FrameError::ProtocolError);
             }
         }
+
+        if (hdrs.size() > fields_before) {
+            list_size += DynamicTable::get_header_entry_size(hdrs.back());
+        }
+        if (list_size > MAX_HEADER_LIST_SIZE) {
+            spdlog::error("header list exceeds maximum allowed size (max: {})",
+                          MAX_HEADER_LIST_SIZE);
+            return std::unexpected(FrameError::ProtocolError);
+        }
     }
     return hdrs;
 }
-- 
2.43.0


From d73b0320a86d1f9a4651a321742f405142a2f31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:24 +0000
Subject: [PATCH 38/44] fix: notice on Linux that stdout or stderr has lost its
 reader

A write of no bytes to a pipe without readers succeeds there, so the SIGPIPE
handler never stopped the server.
---
 app/signal_handler.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/app/signal_handler.cpp b/app/signal_handler.cpp
index 5c52083..2c4063b 100644
--- a/app/signal_handler.cpp
+++ b/app/signal_handler.cpp
@@ -1,7 +1,9 @@
 #include "signal_handler.h"
 
+#include <poll.h>
 #include <unistd.h>
 
+#include <cerrno>
 #include <csignal>
 
 SignalHandler SignalHandler::setup(ion::Http2Server& server) {
@@ -36,12 +38,20 @@ void SignalHandler::signal_handler(int) {
     stop_server(ion::StopReason::Signal);
 }
 
+// a write of no bytes does not tell: on Linux it succeeds on a broken pipe
+static bool is_pipe_broken(int fd) {
+    const int saved_errno = errno;
+    pollfd pfd{.fd = fd, .events = POLLOUT, .revents = 0};
+    const bool broken = poll(&pfd, 1, 0) > 0 && (pfd.revents & (POLLERR | POLLHUP)) != 0;
+    errno = saved_errno;
+    return broken;
+}
+
 void SignalHandler::sigpipe_handler(int) {
-    constexpr char dummy = 0;
-    if (write(STDOUT_FILENO, &dummy, 0) < 0 && errno == EPIPE) {
+    if (is_pipe_broken(STDOUT_FILENO)) {
         stop_server(ion::StopReason::StdOutPipeBroken);
     }
-    if (write(STDERR_FILENO, &dummy, 0) < 0 && errno == EPIPE) {
+    if (is_pipe_broken(STDERR_FILENO)) {
         stop_server(ion::StopReason::StdErrPipeBroken);
     }
 }
-- 
2.43.0


From bd00cacb7e0f0b14a8d62b3298210d5aba227180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:09 +0000
Subject: [PATCH 39/44] fix: answer with 500 when middleware throws as it wraps
 a handler

Only what the resulting handler threw was caught; here an exception discarded
the connection, or ended the server if it was no std::exception.
---
 lib/http2_conn.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index e0146c8..b64e4f5 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -571,11 +571,12 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
     span->SetAttribute("http.target", *path);
     span->SetAttribute("ion.client_ip", client_ip_);
 
-    auto handler = router_.get_handler(path.value(), method.value());
     HttpRequest req{.method = *method, .path = *path, .headers = headers};
 
     HttpResponse resp;
     try {
+        // middleware runs as the handler is looked up, too
+        auto handler = router_.get_handler(path.value(), method.value());
         resp = handler(req);
     } catch (const std::exception& e) {
         spdlog::error("error processing request: {}", e.what());
-- 
2.43.0


From 33629563bd97569a43c1d1837d1121c164ee9e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:13 +0000
Subject: [PATCH 40/44] fix: do not run without an epoll instance

When epoll_create1 failed the server went on: it never accepted anybody and
its loop span on the failing epoll_wait.
---
 lib/pollers/epoll_poller.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/pollers/epoll_poller.cpp b/lib/pollers/epoll_poller.cpp
index bbf2541..ff8f5ce 100644
--- a/lib/pollers/epoll_poller.cpp
+++ b/lib/pollers/epoll_poller.cpp
@@ -3,6 +3,8 @@
 
 #include <unistd.h>
 
+#include <system_error>
+
 #include "spdlog/spdlog.h"
 
 namespace ion {
@@ -10,7 +12,7 @@ namespace ion {
 EPollPoller::EPollPoller() : events_buffer_(64) {
     epoll_fd_ = epoll_create1(EPOLL_CLOEXEC);
     if (epoll_fd_ < 0) {
-        spdlog::error("epoll_create1: failed: {}", strerror(errno));
+        throw std::system_error(errno, std::system_category(), "epoll_create1");
     }
 }
 
-- 
2.43.0


From 439e7a9a913c09674ebbd1b150cbb332b4266070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:29 +0000
Subject: [PATCH 41/44] fix: do not keep sockets that cannot be polled

A server whose listening socket could not be added to the poller ran without
ever accepting; a connection was left alone until it had been idle for long
enough to be reaped.
---
 lib/http2_server.cpp         | 12 +++++++++---
 lib/pollers/epoll_poller.cpp |  5 +++--
 lib/pollers/epoll_poller.h   |  2 +-
 lib/pollers/poll_poller.cpp  |  3 ++-
 lib/pollers/poll_poller.h    |  2 +-
 lib/pollers/poller.h         |  2 +-
 6 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index aa20a71..0f18a7b 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -4,6 +4,7 @@
 
 #include <optional>
 #include <set>
+#include <stdexcept>
 
 #include "pollers/poll_poller.h"
 #include "tcp_listener.h"
@@ -47,9 +48,12 @@ void Http2Server::establish_conn(TcpListener& listener, Poller& poller) {
     auto conn = std::make_unique<Http2Connection>(std::move(transport), client_ip_res.value_or(""),
                                                   router_);
     connections_[raw_fd] = std::move(conn);
+    if (!poller.set(raw_fd, PollEventType::Read)) {
+        spdlog::error("closing connection that cannot be polled (fd: {})", raw_fd);
+        connections_.erase(raw_fd);
+        return;
+    }
     spdlog::info("HTTP connection established. total = {}", connections_.size());
-
-    poller.set(raw_fd, PollEventType::Read);
 }
 
 void Http2Server::reap_idle_connections(Poller& poller) {
@@ -125,7 +129,9 @@ void Http2Server::start(uint16_t port) {
     spdlog::info("listening on port {}", port);
 
     const auto poller = Poller::create();
-    poller->set(listener_fd, PollEventType::Read);
+    if (!poller->set(listener_fd, PollEventType::Read)) {
+        throw std::runtime_error("failed to poll listening socket");
+    }
 
     while (!user_req_termination_) {
         reap_idle_connections(*poller);
diff --git a/lib/pollers/epoll_poller.cpp b/lib/pollers/epoll_poller.cpp
index ff8f5ce..86cdc24 100644
--- a/lib/pollers/epoll_poller.cpp
+++ b/lib/pollers/epoll_poller.cpp
@@ -50,7 +50,7 @@ PollEventType EPollPoller::from_epoll_events(uint32_t events) {
     return result;
 }
 
-void EPollPoller::set(int fd, PollEventType event_types) {
+bool EPollPoller::set(int fd, PollEventType event_types) {
     epoll_event ev{};
     ev.events = to_epoll_events(event_types);
     ev.data.fd = fd;
@@ -59,9 +59,10 @@ void EPollPoller::set(int fd, PollEventType event_types) {
 
     if (epoll_ctl(epoll_fd_, op, fd, &ev) < 0) {
         spdlog::warn("epoll_ctl: failed (fd: {}): {}", fd, strerror(errno));
-        return;
+        return false;
     }
     registered_fds_[fd] = event_types;
+    return true;
 }
 
 void EPollPoller::remove(int fd) {
diff --git a/lib/pollers/epoll_poller.h b/lib/pollers/epoll_poller.h
index 420cc55..7579243 100644
--- a/lib/pollers/epoll_poller.h
+++ b/lib/pollers/epoll_poller.h
@@ -17,7 +17,7 @@ class EPollPoller : public Poller {
 
     std::expected<std::vector<PollEvent>, PollError> poll(
         std::chrono::milliseconds timeout) override;
-    void set(int fd, PollEventType event_types) override;
+    bool set(int fd, PollEventType event_types) override;
     void remove(int fd) override;
 
    private:
diff --git a/lib/pollers/poll_poller.cpp b/lib/pollers/poll_poller.cpp
index 95d05a6..9152730 100644
--- a/lib/pollers/poll_poller.cpp
+++ b/lib/pollers/poll_poller.cpp
@@ -65,8 +65,9 @@ std::expected<std::vector<PollEvent>, PollError> PollPoller::poll(
     return result;
 }
 
-void PollPoller::set(int fd, PollEventType event_types) {
+bool PollPoller::set(int fd, PollEventType event_types) {
     fd_events_[fd] = event_types;
+    return true;
 }
 
 void PollPoller::remove(int fd) {
diff --git a/lib/pollers/poll_poller.h b/lib/pollers/poll_poller.h
index 194bf03..f80c21e 100644
--- a/lib/pollers/poll_poller.h
+++ b/lib/pollers/poll_poller.h
@@ -13,7 +13,7 @@ class PollPoller : public Poller {
 
     std::expected<std::vector<PollEvent>, PollError> poll(
         std::chrono::milliseconds timeout) override;
-    void set(int fd, PollEventType event_types) override;
+    bool set(int fd, PollEventType event_types) override;
     void remove(int fd) override;
 
    private:
diff --git a/lib/pollers/poller.h b/lib/pollers/poller.h
index a840f4d..f3ddf37 100644
--- a/lib/pollers/poller.h
+++ b/lib/pollers/poller.h
@@ -35,7 +35,7 @@ inline bool has_event(PollEventType events, PollEventType check) {
 class Poller {
    public:
     virtual ~Poller() = default;
-    virtual void set(int fd, PollEventType events) = 0;
+    virtual bool set(int fd, PollEventType events) = 0;  // false: it will not be reported
     virtual void remove(int fd) = 0;
     virtual std::expected<std::vector<PollEvent>, PollError> poll(
         std::chrono::milliseconds timeout) = 0;
-- 
2.43.0


From 02a7b6119824aa7216331be11bdeeb7962c19c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:25 +0000
Subject: [PATCH 42/44] fix: let other threads stop the server without a data
 race

---
 lib/http2_server.cpp | 2 +-
 lib/http2_server.h   | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index 0f18a7b..eeecbd6 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -154,7 +154,7 @@ void Http2Server::start(uint16_t port) {
 
 void Http2Server::stop(StopReason reason) {
     stop_reason_ = reason;
-    user_req_termination_ = 1;
+    user_req_termination_ = true;
 }
 
 }  // namespace ion
diff --git a/lib/http2_server.h b/lib/http2_server.h
index fd9aa84..2ca2ff6 100644
--- a/lib/http2_server.h
+++ b/lib/http2_server.h
@@ -1,6 +1,6 @@
 #pragma once
 
-#include <csignal>
+#include <atomic>
 #include <map>
 
 #include "http2_conn.h"
@@ -32,10 +32,12 @@ class Http2Server {
     void handle_connection_events(Poller& poller, int fd, PollEventType poll_events);
     std::unique_ptr<Transport> create_transport(SocketFd&& fd) const;
 
-    volatile std::sig_atomic_t user_req_termination_ = 0;
+    // set by other threads and by signal handlers
+    std::atomic<bool> user_req_termination_{false};
+    static_assert(std::atomic<bool>::is_always_lock_free);
     Router router_{};
     ServerConfiguration config_;
-    StopReason stop_reason_{};
+    std::atomic<StopReason> stop_reason_{};
     std::map<int, std::unique_ptr<Http2Connection>> connections_;
     std::optional<TlsContext> tls_ctx_{};
 };
-- 
2.43.0


From a7bc7762d764c345d7ca1f1ce0a5ad48abf5e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:30 +0000
Subject: [PATCH 43/44] fix: do not let a client that sends faster than it is
 served keep the server to itself

A connection was processed until nothing more could be read from it, so that a client which always has
more to send was the only one served: no other connection, no idle timeout and no request to stop was
attended to. A turn now ends after 100 frames; the connection stays polled for writing as well, since
the frames left may be received completely already.
---
 lib/http2_conn.cpp   | 7 +++++++
 lib/http2_conn.h     | 1 +
 lib/http2_server.cpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index b64e4f5..deeec3e 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -36,6 +36,7 @@ static constexpr size_t PING_PAYLOAD_SIZE = 8;
 static constexpr size_t INITIAL_READ_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t INITIAL_WRITE_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t TEMP_READ_BUFFER_SIZE = 16 * 1024;
+static constexpr size_t MAX_FRAMES_PER_TURN = 100;
 
 static constexpr std::chrono::seconds IDLE_TIMEOUT{5};
 
@@ -442,6 +443,7 @@ std::optional<Http2ProcessResult> Http2Connection::handle_handshake() {
 }
 
 Http2ProcessResult Http2Connection::internal_process() {
+    size_t frames = 0;
     while (true) {
         spdlog::trace("processing state: {}", state_to_string(state_));
 
@@ -472,6 +474,11 @@ Http2ProcessResult Http2Connection::internal_process() {
                 }
             }
             case Http2ConnectionState::AwaitingFrame: {
+                // a client may send faster than its frames are processed, without end
+                if (frames++ == MAX_FRAMES_PER_TURN) {
+                    update_last_activity();  // the client is not idle but waits for us
+                    return Http2ProcessResult::MoreToDo;
+                }
                 if (try_read_frame()) {
                     spdlog::debug("frame processed, continuing...");
                     break;
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 114a8cd..5432c90 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -20,6 +20,7 @@ using SpanPtr = opentelemetry::nostd::shared_ptr<opentelemetry::trace::Span>;
 enum class Http2ProcessResult {
     WantRead,
     WantWrite,
+    MoreToDo,  // others get a turn before the rest of what was received is processed
     DiscardConnection,
 };
 
diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index eeecbd6..f1262d1 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -111,6 +111,10 @@ void Http2Server::handle_connection_events(Poller& poller, int fd, PollEventType
             // nothing is read until then, so data that could be must not wake us up
             poller.set(fd, PollEventType::Write);
             break;
+        case Http2ProcessResult::MoreToDo:
+            // it may be received completely already, but being ready to write also wakes us up
+            poller.set(fd, PollEventType::Read | PollEventType::Write);
+            break;
         case Http2ProcessResult::WantRead:
             // interest is already Read (or was reset above), just keep waiting
             break;
-- 
2.43.0


From 6a67b9f00beb10aee5c0531a29b5eb2fad568d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:43 +0000
Subject: [PATCH 44/44] fix: do not spin while connections cannot be accepted
 for want of resources

With no descriptor left the connection stays in the queue and the listening socket ready, so that
every poll returned at once. It is polled again after a moment.
---
 lib/http2_server.cpp | 14 ++++++++++++++
 lib/http2_server.h   |  4 ++++
 lib/tcp_listener.cpp | 27 +++++++++++++--------------
 lib/tcp_listener.h   |  3 +++
 4 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index f1262d1..e9aeb12 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -79,6 +79,19 @@ void Http2Server::handle_incoming_connection(TcpListener& listener, Poller& poll
                          overflow->client_ip().value_or("unknown IP"));
         }
     }
+
+    // what could not be accepted keeps the listening socket ready, so polling it would not wait
+    if (listener.is_short_of_resources()) {
+        poller.set(listener.raw_fd(), PollEventType::None);
+        accept_again_at_ = std::chrono::steady_clock::now() + POLL_TIMEOUT;
+    }
+}
+
+void Http2Server::resume_accepting(TcpListener& listener, Poller& poller) {
+    if (accept_again_at_ && std::chrono::steady_clock::now() >= *accept_again_at_ &&
+        poller.set(listener.raw_fd(), PollEventType::Read)) {
+        accept_again_at_.reset();
+    }
 }
 
 void Http2Server::handle_connection_events(Poller& poller, int fd, PollEventType poll_events) {
@@ -139,6 +152,7 @@ void Http2Server::start(uint16_t port) {
 
     while (!user_req_termination_) {
         reap_idle_connections(*poller);
+        resume_accepting(listener, *poller);
 
         auto events = poller->poll(POLL_TIMEOUT);
         if (!events) {
diff --git a/lib/http2_server.h b/lib/http2_server.h
index 2ca2ff6..5663389 100644
--- a/lib/http2_server.h
+++ b/lib/http2_server.h
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <atomic>
+#include <chrono>
 #include <map>
+#include <optional>
 
 #include "http2_conn.h"
 #include "pollers/poller.h"
@@ -29,6 +31,7 @@ class Http2Server {
     void establish_conn(TcpListener& listener, Poller& poller);
     void reap_idle_connections(Poller& poller);
     void handle_incoming_connection(TcpListener& listener, Poller& poller);
+    void resume_accepting(TcpListener& listener, Poller& poller);
     void handle_connection_events(Poller& poller, int fd, PollEventType poll_events);
     std::unique_ptr<Transport> create_transport(SocketFd&& fd) const;
 
@@ -40,6 +43,7 @@ class Http2Server {
     std::atomic<StopReason> stop_reason_{};
     std::map<int, std::unique_ptr<Http2Connection>> connections_;
     std::optional<TlsContext> tls_ctx_{};
+    std::optional<std::chrono::steady_clock::time_point> accept_again_at_;  // unless it is now
 };
 
 }  // namespace ion
diff --git a/lib/tcp_listener.cpp b/lib/tcp_listener.cpp
index c6902e4..b8e9abd 100644
--- a/lib/tcp_listener.cpp
+++ b/lib/tcp_listener.cpp
@@ -80,20 +80,14 @@ void TcpListener::set_tcp_no_delay(const SocketFd& client_fd) {
     }
 }
 
-// errors of the connection being accepted or due to a shortage, not of the listening socket
+// errors of the connection being accepted, not of the listening socket
 static bool is_transient_accept_error(int error) {
-    switch (error) {
-        case ECONNABORTED:
-        case EPROTO:
-        case EPERM:
-        case EMFILE:
-        case ENFILE:
-        case ENOBUFS:
-        case ENOMEM:
-            return true;
-        default:
-            return false;
-    }
+    return error == ECONNABORTED || error == EPROTO || error == EPERM;
+}
+
+// the connection can only be accepted later
+static bool is_resource_shortage(int error) {
+    return error == EMFILE || error == ENFILE || error == ENOBUFS || error == ENOMEM;
 }
 
 std::optional<SocketFd> TcpListener::try_accept() {
@@ -101,6 +95,7 @@ std::optional<SocketFd> TcpListener::try_accept() {
     socklen_t client_len = sizeof(client_addr);
 
     const int fd = ::accept(server_fd_, reinterpret_cast<sockaddr*>(&client_addr), &client_len);
+    short_of_resources_ = fd < 0 && is_resource_shortage(errno);
     if (fd >= 0) {
         auto client_fd = SocketFd(fd);
         set_nonblocking_socket(client_fd);  // required for Linux. macOS inherits from server_fd!
@@ -112,7 +107,7 @@ std::optional<SocketFd> TcpListener::try_accept() {
         return std::nullopt;
     }
 
-    if (is_transient_accept_error(errno)) {
+    if (short_of_resources_ || is_transient_accept_error(errno)) {
         spdlog::warn("failed to accept connection: {}", strerror(errno));
         return std::nullopt;
     }
@@ -120,6 +115,10 @@ std::optional<SocketFd> TcpListener::try_accept() {
     throw std::system_error(errno, std::system_category(), "accept");
 }
 
+bool TcpListener::is_short_of_resources() const {
+    return short_of_resources_;
+}
+
 void TcpListener::close() {
     server_fd_.close();
 }
diff --git a/lib/tcp_listener.h b/lib/tcp_listener.h
index 8b20baf..482f4f4 100644
--- a/lib/tcp_listener.h
+++ b/lib/tcp_listener.h
@@ -14,10 +14,13 @@ class TcpListener {
     void listen();
     int raw_fd() const;
     [[nodiscard]] std::optional<SocketFd> try_accept();
+    // whether the last attempt to accept failed for want of resources, such as file descriptors
+    [[nodiscard]] bool is_short_of_resources() const;
     void close();
 
    private:
     SocketFd server_fd_;
+    bool short_of_resources_ = false;
 
     static void set_nonblocking_socket(const SocketFd& socket_fd);
     static void set_tcp_no_delay(const SocketFd& client_fd);
-- 
2.43.0

