From 964739d232ba0b4388b898fbc645527bc8264b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:59 +0000
Subject: [PATCH 01/27] fix: Base64::encode read out of bounds for inputs
 shorter than two bytes

---
 src/Base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index 6ff83ae..3aa375a 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -15,7 +15,7 @@ namespace fr
         size_t a;
 
         //Do as many sets of 3 bytes as we can
-        for(a = 0; a < input.size() - 2; a += 3)
+        for(a = 0; a + 2 < input.size(); a += 3)
         {
             out += base64_table[(input[a] >> 2) & 0x3F]; //Store the first 6 bits of the first byte
             out += base64_table[((input[a] & 0x3) << 4) | (input[a + 1] & 0xF0) >> 4]; //Store the last 2 bits of the first byte combined with the first 4 bits of the second byte
-- 
2.43.0


From a08f2f5d37ade3b9b32a3e4b725372fe1102274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:59 +0000
Subject: [PATCH 02/27] fix: Http::url_decode mangled lower case and incomplete
 percent escapes

---
 src/Http.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index be924c9..a3ac8ce 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -165,13 +165,14 @@ namespace fr
 
     std::string Http::url_decode(const std::string &str)
     {
+        auto is_hex = [](char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); };
         std::string result;
         for(size_t a = 0; a < str.size(); a++)
         {
-            if(str[a] == '%' && a < str.size() - 1)
+            if(str[a] == '%' && a + 2 < str.size() && is_hex(str[a + 1]) && is_hex(str[a + 2]))
             {
-                int ch1 = str[++a] - 48;
-                int ch2 = str[++a] - 48;
+                int ch1 = ::toupper(str[++a]) - 48;
+                int ch2 = ::toupper(str[++a]) - 48;
                 if(ch1 > 9) ch1 -= 7;
                 if(ch2 > 9) ch2 -= 7;
                 uint8_t ret = 0;
-- 
2.43.0


From 6dc2007d776b059849b557d6c69740918da5bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 03/27] fix: HTTP header end depended on how the data was
 segmented

---
 src/HttpRequest.cpp  | 7 ++++---
 src/HttpResponse.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 696df9c..2aa9ef4 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -28,15 +28,16 @@ namespace fr
             //Check to see if this request data contains the end of the header
             uint16_t header_end_size = 4;
             auto header_end = body.find("\r\n\r\n");
-            if(header_end == std::string::npos)
+            auto lf_header_end = body.find("\n\n");
+            if(lf_header_end < header_end)
             {
-                header_end = body.find("\n\n");
+                header_end = lf_header_end;
                 header_end_size = 2;
             }
             header_ended = header_end != std::string::npos;
 
             //Ensure that the header doesn't exceed max length
-            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
+            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE + 3) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
             {
                 return fr::Socket::Status::HttpHeaderTooBig;
             }
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index cda31b6..483ac41 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -21,15 +21,16 @@ namespace fr
             //Check to see if this request data contains the end of the header
             uint16_t header_end_size = 4;
             auto header_end = body.find("\r\n\r\n");
-            if(header_end == std::string::npos)
+            auto lf_header_end = body.find("\n\n");
+            if(lf_header_end < header_end)
             {
-                header_end = body.find("\n\n");
+                header_end = lf_header_end;
                 header_end_size = 2;
             }
             header_ended = header_end != std::string::npos;
 
             //Ensure that the header doesn't exceed max length
-            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
+            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE + 3) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
             {
                 return fr::Socket::Status::HttpHeaderTooBig;
             }
-- 
2.43.0


From f6bca983706e1f2c236da642eff5ca8951d27983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 04/27] fix: HTTP parsers reported success when fed more data
 after a header error

---
 src/HttpRequest.cpp  | 7 ++++---
 src/HttpResponse.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 2aa9ef4..9fe1eb2 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -34,16 +34,16 @@ namespace fr
                 header_end = lf_header_end;
                 header_end_size = 2;
             }
-            header_ended = header_end != std::string::npos;
+            const bool header_found = header_end != std::string::npos;
 
             //Ensure that the header doesn't exceed max length
-            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE + 3) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
+            if((!header_found && body.size() > MAX_HTTP_HEADER_SIZE + 3) || (header_found && header_end > MAX_HTTP_HEADER_SIZE))
             {
                 return fr::Socket::Status::HttpHeaderTooBig;
             }
 
             //If the header end has not been found, ask for more data.
-            if(!header_ended)
+            if(!header_found)
                 return fr::Socket::Status::NotEnoughData;
 
             //Else parse it
@@ -51,6 +51,7 @@ namespace fr
                 return fr::Socket::Status::ParseError;
 
             //Leave things after the header intact
+            header_ended = true;
             body.erase(0, header_end + header_end_size);
         }
 
diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index 483ac41..7f542be 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -27,16 +27,16 @@ namespace fr
                 header_end = lf_header_end;
                 header_end_size = 2;
             }
-            header_ended = header_end != std::string::npos;
+            const bool header_found = header_end != std::string::npos;
 
             //Ensure that the header doesn't exceed max length
-            if((!header_ended && body.size() > MAX_HTTP_HEADER_SIZE + 3) || (header_ended && header_end > MAX_HTTP_HEADER_SIZE))
+            if((!header_found && body.size() > MAX_HTTP_HEADER_SIZE + 3) || (header_found && header_end > MAX_HTTP_HEADER_SIZE))
             {
                 return fr::Socket::Status::HttpHeaderTooBig;
             }
 
             //If the header end has not been found, ask for more data.
-            if(!header_ended)
+            if(!header_found)
                 return fr::Socket::Status::NotEnoughData;
 
             //Else parse it
@@ -44,6 +44,7 @@ namespace fr
                 return fr::Socket::Status::ParseError;
 
             //Leave things after the header intact
+            header_ended = true;
             body.erase(0, header_end + header_end_size);
         }
 
-- 
2.43.0


From a2d6a75f268722f729152c555c5edc2fd8bcefb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 05/27] fix: HttpRequest accepted malformed request lines and
 cut URIs containing 'HTTP'

---
 src/HttpRequest.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 9fe1eb2..57286f7 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -80,7 +80,7 @@ namespace fr
             size_t line = 0;
             std::vector<std::string> header_lines = split_string(body.substr(0, (unsigned long)header_end_pos));
             if(header_lines.empty())
-                return true;
+                return false;
 
             //Parse request type & uri
             request_type = parse_header_type(header_lines[line]);
@@ -194,7 +194,10 @@ namespace fr
         auto type_end = str.find(' ');
         if(type_end != std::string::npos)
         {
-            return string_to_request_type(str.substr(0, type_end));
+            //string_to_request_type() only matches the beginning, so ensure that it's the whole method
+            auto type = string_to_request_type(str.substr(0, type_end));
+            if(type < Http::RequestType::RequestTypeCount && request_type_to_string(type).size() == type_end)
+                return type;
         }
         return Http::RequestType::Unknown;
     }
@@ -202,8 +205,8 @@ namespace fr
     void HttpRequest::parse_header_uri(const std::string &str)
     {
         auto uri_begin = str.find('/');
-        auto uri_end = str.find("HTTP");
-        if(uri_begin == std::string::npos || uri_end == std::string::npos)
+        auto uri_end = str.rfind("HTTP");
+        if(uri_begin == std::string::npos || uri_end == std::string::npos || uri_begin >= uri_end)
         {
             throw std::invalid_argument("No URI found in: " + str);
         }
-- 
2.43.0


From f3ee1a3b3aaf007e9d9b7be50c110bc9d287508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 06/27] fix: HttpRequest::construct compared iterators of two
 maps and sent POST variables without a length

---
 src/HttpRequest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HttpRequest.cpp b/src/HttpRequest.cpp
index 57286f7..e38591a 100644
--- a/src/HttpRequest.cpp
+++ b/src/HttpRequest.cpp
@@ -136,7 +136,7 @@ namespace fr
         for(auto iter = post_data.begin(); iter != post_data.end();)
         {
             post_string += iter->first + "=" + iter->second;
-            if(++iter != get_data.end())
+            if(++iter != post_data.end())
                 post_string += "&";
         }
         if(!post_string.empty())
@@ -149,7 +149,7 @@ namespace fr
             request += "Connection: keep-alive\r\n";
         if(header_data.find("host") == header_data.end())
             request += "Host: " + host + "\r\n";
-        if(!body.empty())
+        if(header_data.find("content-length") == header_data.end() && (!body.empty() || !post_string.empty()))
             request += "Content-Length: " + std::to_string(body.size() + post_string.size()) + "\r\n";
 
         //Add in space
-- 
2.43.0


From a2e37e7ae81135eb2eccfbe4766cc567e34eea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 07/27] fix: Http::parse_argument_list merged an argument
 without value into the next one

---
 src/Http.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Http.cpp b/src/Http.cpp
index a3ac8ce..644b7a3 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -210,6 +210,11 @@ namespace fr
             {
                 unsigned long and_pos;
                 and_pos = str.find('&', read_index);
+                if(and_pos < equal_pos) //This argument has no value, skip it
+                {
+                    read_index = and_pos + 1;
+                    continue;
+                }
                 if(and_pos >= str.size())
                 {
                     size_t str_size = str.size();
-- 
2.43.0


From 46a3ab742622066e79a4dda592b3314f7d4149fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 08/27] fix: HttpResponse threw or corrupted the body on
 malformed chunk lengths

---
 src/HttpResponse.cpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/HttpResponse.cpp b/src/HttpResponse.cpp
index 7f542be..9a43c3c 100644
--- a/src/HttpResponse.cpp
+++ b/src/HttpResponse.cpp
@@ -2,6 +2,7 @@
 // Created by fred on 10/12/16.
 //
 
+#include <cctype>
 #include <iostream>
 #include "frnetlib/HttpResponse.h"
 
@@ -48,22 +49,35 @@ namespace fr
             body.erase(0, header_end + header_end_size);
         }
 
-        //Ensure that body doesn't exceed maximum length
-        if(body.size() > MAX_HTTP_BODY_SIZE)
-            return fr::Socket::Status::HttpBodyTooBig;
-
         //Check if chunked encoding
         if(transfer_encodings.find(TransferEncoding::Chunked) != transfer_encodings.end())
         {
             //It's chunked, find the length of the chunk in hex!
-            unsigned int chunk_len = 1;
+            size_t chunk_len = 1;
             while(chunk_len > 0 && chunk_offset < body.size())
             {
+                //Anything which doesn't begin with a length can't be a chunk
+                if(!std::isxdigit(static_cast<unsigned char>(body[chunk_offset])))
+                    return fr::Socket::Status::ParseError;
+
                 auto length_end = body.find("\r\n", chunk_offset);
+                if((length_end == std::string::npos ? body.size() - 1 : length_end) - chunk_offset > MAX_HTTP_HEADER_SIZE)
+                    return fr::Socket::Status::ParseError;
                 if(length_end == std::string::npos)
                     return fr::Socket::Status::NotEnoughData;
                 std::string hex_length = body.substr(chunk_offset, length_end - chunk_offset);
-                chunk_len = std::stoul(hex_length, nullptr, 16);
+                try
+                {
+                    chunk_len = std::stoul(hex_length, nullptr, 16);
+                }
+                catch(const std::exception &e)
+                {
+                    return fr::Socket::Status::ParseError;
+                }
+
+                //Ensure that the body doesn't exceed maximum length
+                if(chunk_len > MAX_HTTP_BODY_SIZE || chunk_offset + chunk_len > MAX_HTTP_BODY_SIZE)
+                    return fr::Socket::Status::HttpBodyTooBig;
 
                 //If the current chunk hasn't fully been received yet then ask for more data
                 if(body.size() - length_end < chunk_len + 4) //+4 because of the \r\n after the hex value and the chunk end
@@ -75,12 +89,19 @@ namespace fr
                 chunk_offset += chunk_len;
             }
 
-            //If this chunk is 0, we have everything!
+            //If this chunk is 0, we have everything! Anything after it isn't part of the body
             if(chunk_len == 0)
+            {
+                body.resize(chunk_offset);
                 return fr::Socket::Status::Success;
+            }
             return fr::Socket::Status::NotEnoughData;
         }
 
+        //Ensure that body doesn't exceed maximum length
+        if(body.size() > MAX_HTTP_BODY_SIZE)
+            return fr::Socket::Status::HttpBodyTooBig;
+
         //Cut off any data if it exceeds content length, provided that a content length is specified
         if(content_length > 0 && body.size() > content_length)
             body.resize(content_length);
-- 
2.43.0


From 7e494b6cf7eed8b9cc51a7562bfe944ef7b1db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:23 +0000
Subject: [PATCH 09/27] fix: receiving into a used Packet kept stale data and
 read position

---
 include/frnetlib/Packet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 67d1db0..1d75217 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -772,8 +772,8 @@ namespace fr
                 return fr::Socket::Status::MaxPacketSizeExceeded;
 
             //Now we've got the length, read the rest of the data in
-            if(packet_length + PACKET_HEADER_LENGTH > buffer.size())
-                buffer.resize(packet_length + PACKET_HEADER_LENGTH);
+            buffer_read_index = PACKET_HEADER_LENGTH;
+            buffer.resize(packet_length + PACKET_HEADER_LENGTH);
 
             do
             {
-- 
2.43.0


From 4a7bd063cd08d42001bf7b7db3aeb6883f50596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 10/27] fix: Packet bounds arithmetic overflowed for huge
 sizes, offsets and short buffers

---
 include/frnetlib/Packet.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 1d75217..8903a69 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -622,6 +622,8 @@ namespace fr
         inline void set_buffer(std::string &&data)
         {
             buffer = std::move(data);
+            if(buffer.size() < PACKET_HEADER_LENGTH) buffer.resize(PACKET_HEADER_LENGTH);
+            if(buffer_read_index > buffer.size()) buffer_read_index = buffer.size();
         }
 
         /*!
@@ -643,8 +645,7 @@ namespace fr
          */
         inline void set_cursor(size_t pos = 0)
         {
-            buffer_read_index = PACKET_HEADER_LENGTH + pos;
-            if(buffer_read_index > buffer.size()) buffer_read_index = buffer.size();
+            buffer_read_index = PACKET_HEADER_LENGTH + (pos > size() ? size() : pos);
         }
 
         /*!
@@ -666,12 +667,11 @@ namespace fr
          */
         inline void seek_cursor(ssize_t pos)
         {
-            ssize_t new_offset = buffer_read_index + pos;
-            if(new_offset < (ssize_t)PACKET_HEADER_LENGTH)
-                new_offset = PACKET_HEADER_LENGTH;
-            if(new_offset > (ssize_t)buffer.size())
-                new_offset = buffer.size();
-            buffer_read_index = static_cast<size_t>(new_offset);
+            if(pos < -(ssize_t)get_cursor())
+                pos = -(ssize_t)get_cursor();
+            if(pos > (ssize_t)get_bytes_remaining())
+                pos = get_bytes_remaining();
+            buffer_read_index += pos;
         }
 
         /*!
@@ -695,7 +695,7 @@ namespace fr
          */
         inline void assert_bytes_remaining(size_t required_space) const
         {
-            if(buffer_read_index + required_space > buffer.size())
+            if(required_space > get_bytes_remaining())
             {
                 throw std::out_of_range("Not enough bytes remaining in packet to extract requested data");
             }
-- 
2.43.0


From 7c244819c75e3f66df3bd199bf9cd9f01665529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 11/27] fix: extracting a vector from a Packet allocated
 whatever length the peer claimed

---
 include/frnetlib/Packet.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/frnetlib/Packet.h b/include/frnetlib/Packet.h
index 8903a69..ea23a31 100644
--- a/include/frnetlib/Packet.h
+++ b/include/frnetlib/Packet.h
@@ -135,12 +135,14 @@ namespace fr
 
             //First extract the length
             *this >> length;
-            vec.resize(length);
+            vec.clear();
 
-            //Now take each of the elements out of the packet
-            for(auto &&iter : vec)
+            //Now take each of the elements out of the packet. It's grown as they're found, as the length can't be trusted.
+            for(uint32_t a = 0; a < length; a++)
             {
-                *this >> iter;
+                vec.emplace_back();
+                auto &&elem = vec.back();
+                *this >> elem;
             }
             return *this;
         }
-- 
2.43.0


From ecb8190af562e39e0948806df1c03e6f51887df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 12/27] fix: WebFrame::send used the 64 bit length form for
 65535 byte payloads

---
 src/WebFrame.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index 7abe6c8..bf5e9cb 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -37,14 +37,14 @@ namespace fr
         if(payload.size() <= 125)
             first_2bytes |= payload.size();
         else
-            first_2bytes |= (payload.size() < std::numeric_limits<uint16_t>::max()) ? 126 : 127;
+            first_2bytes |= (payload.size() <= std::numeric_limits<uint16_t>::max()) ? 126 : 127;
         first_2bytes = htons(first_2bytes);
         buffer.append((char*)&first_2bytes, sizeof(first_2bytes));
 
         //Set additional payload bits if large enough
         if(payload.size() > 125)
         {
-            if(payload.size() < std::numeric_limits<uint16_t>::max()) //16bit length
+            if(payload.size() <= std::numeric_limits<uint16_t>::max()) //16bit length
             {
                 auto len = htons(static_cast<uint16_t>(payload.size()));
                 buffer.append((char*)&len, sizeof(len));
-- 
2.43.0


From 675d7cc26246dd662202313aaa87dfca2b05a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 13/27] fix: WebFrame::send masked the frame's own payload,
 corrupting it for later use

---
 src/WebFrame.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/WebFrame.cpp b/src/WebFrame.cpp
index bf5e9cb..2b4b5c0 100644
--- a/src/WebFrame.cpp
+++ b/src/WebFrame.cpp
@@ -71,11 +71,13 @@ namespace fr
             //Encode the payload using the mask key
             for(size_t a = 0; a < payload.size(); ++a)
             {
-                payload[a] = payload[a] ^ mask_union.str_mask_key[a % 4];
+                buffer += payload[a] ^ mask_union.str_mask_key[a % 4];
             }
         }
-
-        buffer.append(payload);
+        else
+        {
+            buffer.append(payload);
+        }
         size_t sent = 0;
         fr::Socket::Status state;
         do
-- 
2.43.0


From 25107f9b849c32666c1e9b9a042c493addf6f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 14/27] fix: the ftp URL scheme was unknown, sftp parsed as ftp
 and defaulted to the SMTP port

---
 src/URL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 0642060..939a873 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -13,7 +13,7 @@ namespace fr
     std::unordered_map<std::string, URL::Scheme> URL::scheme_string_map = {
             {"http",    URL::HTTP},
             {"https",   URL::HTTPS},
-            {"sftp",    URL::FTP},
+            {"ftp",     URL::FTP},
             {"mailto",  URL::MAILTO},
             {"irc",     URL::IRC},
             {"sftp",    URL::SFTP},
@@ -84,7 +84,7 @@ namespace fr
                     port = "21";
                     break;
                 case URL::SFTP:
-                    port = "25";
+                    port = "22";
                     break;
                 default:
                     break;
-- 
2.43.0


From 475491d75d4b4815c5746e4b6c96e03e8ac7fd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 15/27] fix: URL kept parts of the previously parsed URL and an
 uninitialised scheme

---
 include/frnetlib/URL.h | 2 +-
 src/URL.cpp            | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/URL.h b/include/frnetlib/URL.h
index ebae4a7..eafdf46 100644
--- a/include/frnetlib/URL.h
+++ b/include/frnetlib/URL.h
@@ -218,7 +218,7 @@ namespace fr
         }
 
         //State
-        Scheme scheme;
+        Scheme scheme = Scheme::Unknown;
         std::string host;
         std::string port;
         std::string path;
diff --git a/src/URL.cpp b/src/URL.cpp
index 939a873..3f29dfd 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -29,6 +29,11 @@ namespace fr
     void URL::parse(const std::string &url)
     {
         scheme = Scheme::Unknown;
+        host.clear();
+        port.clear();
+        path.clear();
+        query.clear();
+        fragment.clear();
         size_t parse_offset = 0;
         size_t pos = 0;
 
-- 
2.43.0


From 2434ae89b8156662c44c755ecbdad301aa0186b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 16/27] fix: URL::parse mixed up components when '?', '#', ':'
 or '://' appeared in later parts

---
 src/URL.cpp | 54 +++++++++++++++++++----------------------------------
 1 file changed, 19 insertions(+), 35 deletions(-)

diff --git a/src/URL.cpp b/src/URL.cpp
index 3f29dfd..26699e4 100644
--- a/src/URL.cpp
+++ b/src/URL.cpp
@@ -39,7 +39,7 @@ namespace fr
 
         //Check to see if a scheme exists
         pos = url.find("://");
-        if(pos != std::string::npos)
+        if(pos != std::string::npos && pos < url.find_first_of("/?#"))
         {
             auto scheme_pos = scheme_string_map.find(to_lower(url.substr(0, pos)));
             scheme = (scheme_pos == scheme_string_map.end()) ? URL::Unknown : scheme_pos->second;
@@ -48,29 +48,27 @@ namespace fr
 
         //Check to see if there's a port
         pos = url.find(':', parse_offset);
-        if(pos != std::string::npos) //A port is provided
+        if(pos != std::string::npos && pos < url.find_first_of("/?#", parse_offset)) //A port is provided
         {
             //Store host
             host = url.substr(parse_offset, pos - parse_offset);
             parse_offset += host.size();
 
             //Find end of port
-            size_t port_end = url.find('/', parse_offset);
+            size_t port_end = url.find_first_of("/?#", parse_offset);
             port_end = (port_end == std::string::npos) ? url.size() : port_end;
             port = url.substr(pos + 1, port_end - pos - 1);
-            parse_offset = port_end + 1;
+            parse_offset = port_end;
         }
         else //There's no port
         {
             //Store host
-            pos = url.find('/', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('#', parse_offset);
+            pos = url.find_first_of("/?#", parse_offset);
             if(pos != std::string::npos || parse_offset != 0)
             {
                 pos = (pos != std::string::npos) ? pos : url.size();
                 host = url.substr(parse_offset, pos - parse_offset);
-                parse_offset = pos + 1;
+                parse_offset = pos;
             }
 
             //Guess port based on scheme, if it's not explicitly provided.
@@ -101,36 +99,22 @@ namespace fr
             return;
 
         //Extract the path
-        pos = url.find('?', parse_offset);
-        if(pos != std::string::npos)
-        {
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
-        }
-        else
-        {
-            pos = url.find('#', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.find('?', parse_offset);
-            pos = (pos != std::string::npos) ? pos : url.size();
-            path.append("/").append(url.substr(parse_offset, pos - parse_offset));
-            parse_offset = pos + 1;
-        }
+        pos = url.find_first_of("?#", parse_offset);
+        pos = (pos != std::string::npos) ? pos : url.size();
+        path = url.substr(parse_offset, pos - parse_offset);
+        if(!path.empty() && path.front() != '/')
+            path = "/" + path;
+        parse_offset = pos;
 
         //Extract the query
-        pos = url.find('#', parse_offset - 1);
-        if(pos != std::string::npos)
-        {
-            if(pos + 1 != parse_offset)
-                query = url.substr(parse_offset, pos - parse_offset);
-            fragment = url.substr(pos + 1, url.size() - pos - 1);
-        }
-        else
-        {
-            if(parse_offset >= url.size())
-                return;
-            query = url.substr(parse_offset, url.size() - parse_offset);
-        }
+        pos = url.find('#', parse_offset);
+        pos = (pos != std::string::npos) ? pos : url.size();
+        if(pos > parse_offset)
+            query = url.substr(parse_offset + 1, pos - parse_offset - 1);
 
+        //Extract the fragment
+        if(pos < url.size())
+            fragment = url.substr(pos + 1, url.size() - pos - 1);
     }
 
     URL::Scheme URL::string_to_scheme(const std::string &scheme)
-- 
2.43.0


From f958b5b967e7fad71e218bc8b432b40cface173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 17/27] fix: SocketSelector::remove failed for disconnected
 sockets

---
 src/SocketSelector.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SocketSelector.cpp b/src/SocketSelector.cpp
index f32dd84..261289b 100644
--- a/src/SocketSelector.cpp
+++ b/src/SocketSelector.cpp
@@ -83,7 +83,9 @@ namespace fr
             return nullptr;
         }
 
-        if(epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0)
+        //If the socket has been closed since, then EPOLL has already dropped it and its descriptor might belong to another socket
+        if(socket->get_socket_descriptor() == iter->second.descriptor
+           && epoll_ctl(epoll_fd, EPOLL_CTL_DEL, iter->second.descriptor, nullptr) < 0 && errno != ENOENT && errno != EBADF)
         {
             throw std::runtime_error("Failed to remove socket: " + std::to_string(iter->second.descriptor) + ". Errno: " + std::to_string(errno));
         }
-- 
2.43.0


From ffe72408f8179cbc21aa3b102ac3f3b8642af12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 18/27] fix: SSLSocket::send_raw restarted from the beginning
 when retried after WouldBlock

---
 src/SSLSocket.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index faf3890..164b075 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -66,7 +66,6 @@ namespace fr
 
     Socket::Status SSLSocket::send_raw(const char *data, size_t size, size_t &sent)
     {
-        sent = 0;
         ssize_t status = 0;
 
         while(sent < size)
-- 
2.43.0


From e4e4ef0904e069a7ac89167970d549477aed9b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 19/27] fix: SSLSocket non-blocking mode was never set and
 receive_raw spun instead of reporting WouldBlock

---
 src/SSLSocket.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 164b075..e451794 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -94,6 +94,7 @@ namespace fr
 
     Socket::Status SSLSocket::receive_raw(void *data, size_t data_size, size_t &received)
     {
+        received = 0;
         ssize_t status = 0;
         if(receive_timeout == 0)
         {
@@ -112,7 +113,7 @@ namespace fr
                         {
                             return Socket::Status::Timeout;
                         }
-                        continue;
+                        return Socket::Status::WouldBlock;
                     }
 
                     errno = static_cast<int>(status);
@@ -244,7 +245,7 @@ namespace fr
 
     fr::Socket::Status SSLSocket::set_blocking(bool should_block)
     {
-        int ret = mbedtls_net_set_block(ssl_socket_descriptor.get());
+        int ret = should_block ? mbedtls_net_set_block(ssl_socket_descriptor.get()) : mbedtls_net_set_nonblock(ssl_socket_descriptor.get());
         if(ret != 0)
         {
             errno = ret;
-- 
2.43.0


From 2a85b7abbd70217e1718da907f641f19c36bc5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 20/27] fix: SSLSocket reported an orderly TLS close as an SSL
 error

---
 src/SSLSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index e451794..9197c0c 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -101,7 +101,7 @@ namespace fr
             do
             {
                 status = mbedtls_ssl_read(ssl.get(), (unsigned char *) data, data_size);
-                if(status == 0)
+                if(status == 0 || status == MBEDTLS_ERR_SSL_PEER_CLOSE_NOTIFY)
                 {
                     return Socket::Status::Disconnected;
                 }
-- 
2.43.0


From f5218e49af845f6f5e48d14e383b078c3a017b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 21/27] fix: TcpSocket and TcpListener leaked descriptors and
 looked connected after failures

---
 include/frnetlib/NetworkEncoding.h |  2 +-
 src/TcpListener.cpp                |  9 ++++++++-
 src/TcpSocket.cpp                  | 14 +++++++++++++-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/frnetlib/NetworkEncoding.h b/include/frnetlib/NetworkEncoding.h
index 23ece3f..bcdc300 100644
--- a/include/frnetlib/NetworkEncoding.h
+++ b/include/frnetlib/NetworkEncoding.h
@@ -31,7 +31,7 @@
 #endif
 
 #define closesocket(x) close(x)
-#define INVALID_SOCKET 0
+#define INVALID_SOCKET (-1)
 #define SOCKET_ERROR (-1)
 
 #include <unistd.h>
diff --git a/src/TcpListener.cpp b/src/TcpListener.cpp
index fb0226c..dfb37bf 100644
--- a/src/TcpListener.cpp
+++ b/src/TcpListener.cpp
@@ -34,6 +34,9 @@ namespace fr
         hints.ai_socktype = SOCK_STREAM; //TCP
         hints.ai_flags = AI_PASSIVE; //Have the IP filled in for us
 
+        //Don't leak the previous listening socket, if there is one
+        close_socket();
+
         if(getaddrinfo(nullptr, port.c_str(), &hints, &info) != 0)
         {
             return Socket::Status::AddressLookupFailure;
@@ -43,6 +46,9 @@ namespace fr
         addrinfo *c = nullptr;
         for(c = info; c != nullptr; c = c->ai_next)
         {
+            //Clean up after any previous failed attempt
+            close_socket();
+
             //Attempt to connect
             if((socket_descriptor = socket(c->ai_family, c->ai_socktype, c->ai_protocol)) == INVALID_SOCKET)
             {
@@ -72,7 +78,6 @@ namespace fr
             //Attempt to bind
             if(bind(socket_descriptor, c->ai_addr, c->ai_addrlen) == SOCKET_ERROR)
             {
-                closesocket(socket_descriptor);
                 continue;
             }
             break;
@@ -84,6 +89,7 @@ namespace fr
         //Check that we've actually bound
         if(c == nullptr)
         {
+            close_socket();
             return Socket::Status::BindFailed;
         }
 
@@ -91,6 +97,7 @@ namespace fr
         //Listen to socket
         if(::listen(socket_descriptor, LISTEN_QUEUE_SIZE) == SOCKET_ERROR)
         {
+            close_socket();
             return Socket::Status::ListenFailed;
         }
         return Socket::Status::Success;
diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index f37abda..e36da1a 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -105,6 +105,8 @@ namespace fr
             socket_descriptor = -1;
             return;
         }
+        if(socket_descriptor != *static_cast<int32_t*>(descriptor))
+            close_socket(); //Don't leak the previous connection, if there is one
         socket_descriptor = *static_cast<int32_t*>(descriptor);
         reconfigure_socket();
     }
@@ -123,6 +125,9 @@ namespace fr
         hints.ai_socktype = SOCK_STREAM; //TCP
         hints.ai_flags = AI_PASSIVE; //Have the IP filled in for us
 
+        //Don't leak the previous connection, if there is one
+        close_socket();
+
         //Query remote address information
         if((ret = getaddrinfo(address.c_str(), port.c_str(), &hints, &info)) != 0)
         {
@@ -134,7 +139,8 @@ namespace fr
         addrinfo *c;
         for(c = info; c != nullptr; c = c->ai_next)
         {
-            //Get the socket for this entry
+            //Get the socket for this entry, cleaning up after any previous failed one
+            close_socket();
             socket_descriptor = ::socket(c->ai_family, c->ai_socktype, c->ai_protocol);
             if(socket_descriptor == INVALID_SOCKET)
                 continue;
@@ -183,11 +189,17 @@ namespace fr
         //We're done with this now, cleanup
         freeaddrinfo(info);
         if(c == nullptr)
+        {
+            close_socket();
             return Socket::Status::NoRouteToHost;
+        }
 
         //Turn back to blocking mode
         if(!set_unix_socket_blocking(socket_descriptor, false, true))
+        {
+            close_socket();
             return Socket::Status::Error;
+        }
 
         //Update state now we've got a valid socket descriptor
         set_remote_address(address + ":" + port);
-- 
2.43.0


From 68d83b03ee4bcb072b6c3a31ddee9d2d367c911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 22/27] fix: TcpSocket reported the blocking mode of its
 previous connection

---
 src/TcpSocket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index e36da1a..683b49e 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -57,6 +57,7 @@ namespace fr
         {
             ::closesocket(socket_descriptor);
             socket_descriptor = -1;
+            is_blocking = true; //The next connection starts out blocking
         }
     }
 
@@ -103,6 +104,7 @@ namespace fr
         if(!descriptor)
         {
             socket_descriptor = -1;
+            is_blocking = true;
             return;
         }
         if(socket_descriptor != *static_cast<int32_t*>(descriptor))
-- 
2.43.0


From ff1ddd7d534cdce9c38393edd81f79ae86ee04c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 23/27] fix: string_to_request_type treated strings which begin
 no method as partial methods

---
 include/frnetlib/Http.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/frnetlib/Http.h b/include/frnetlib/Http.h
index a25c294..1066b08 100644
--- a/include/frnetlib/Http.h
+++ b/include/frnetlib/Http.h
@@ -341,7 +341,7 @@ namespace fr
                 int cmp_ret = str.compare(0, type_string.size(), type_string);
                 if(cmp_ret == 0)
                     return static_cast<RequestType>(a);
-                if(str.size() < type_string.size() && cmp_ret < 0)
+                if(str.size() < type_string.size() && type_string.compare(0, str.size(), str) == 0)
                     type = Http::RequestType::Partial;
                 if(type != Http::RequestType::Partial && str.size() < type_string.size() && cmp_ret > 0)
                     type = Http::RequestType::Unknown;
-- 
2.43.0


From 58912deda1a47b49e56de3da0cbec106d89e9540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:39 +0000
Subject: [PATCH 24/27] fix: a moved-from TcpListener still owned the
 descriptor, which was closed twice

---
 include/frnetlib/TcpListener.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/frnetlib/TcpListener.h b/include/frnetlib/TcpListener.h
index 1e0c29a..dca8e25 100644
--- a/include/frnetlib/TcpListener.h
+++ b/include/frnetlib/TcpListener.h
@@ -19,7 +19,12 @@ public:
     TcpListener();
 
     ~TcpListener() override;
-    TcpListener(TcpListener &&o) = default;
+    TcpListener(TcpListener &&o) noexcept
+    : Listener(o),
+      socket_descriptor(o.socket_descriptor)
+    {
+        o.socket_descriptor = -1; //We own it now
+    }
 
     /*!
      * Listens to the given port for connections
-- 
2.43.0


From 316c05236bc636c6ed4aeac21fac69a02a975b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 25/27] fix: connecting with a descriptor past FD_SETSIZE wrote
 outside the fd_set

---
 src/TcpSocket.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/TcpSocket.cpp b/src/TcpSocket.cpp
index 683b49e..32652aa 100644
--- a/src/TcpSocket.cpp
+++ b/src/TcpSocket.cpp
@@ -2,7 +2,12 @@
 // Created by fred on 06/12/16.
 //
 
+#include <algorithm>
+#include <limits>
 #include <iostream>
+#ifndef _WIN32
+#include <poll.h>
+#endif
 #include <frnetlib/SocketSelector.h>
 #include <frnetlib/TcpSocket.h>
 #define DEFAULT_SOCKET_TIMEOUT 20
@@ -168,13 +173,23 @@ namespace fr
             }
 
             //Wait for the socket to do something/expire
+            int64_t wait_seconds = timeout.count() == 0 ? DEFAULT_SOCKET_TIMEOUT : timeout.count();
+#ifdef _WIN32
             timeval tv = {};
-            tv.tv_sec = timeout.count() == 0 ? DEFAULT_SOCKET_TIMEOUT : timeout.count();
+            tv.tv_sec = static_cast<long>(wait_seconds);
             tv.tv_usec = 0;
             fd_set set = {};
             FD_ZERO(&set);
             FD_SET(socket_descriptor, &set);
             ret = select(socket_descriptor + 1, nullptr, &set, nullptr, &tv);
+#else
+            //Not select(), as an fd_set can't hold descriptors past FD_SETSIZE
+            pollfd poll_descriptor = {};
+            poll_descriptor.fd = socket_descriptor;
+            poll_descriptor.events = POLLOUT;
+            wait_seconds = std::max<int64_t>(0, std::min<int64_t>(wait_seconds, std::numeric_limits<int>::max() / 1000));
+            ret = ::poll(&poll_descriptor, 1, static_cast<int>(wait_seconds * 1000));
+#endif
             if(ret <= 0)
                 continue;
 
-- 
2.43.0


From 0a644a2623504a4be39fcd83ac729d560e61d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 26/27] fix: a reconnected SSLSocket reported the blocking mode
 of its previous connection

---
 src/SSLSocket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SSLSocket.cpp b/src/SSLSocket.cpp
index 9197c0c..1c65f45 100644
--- a/src/SSLSocket.cpp
+++ b/src/SSLSocket.cpp
@@ -173,6 +173,7 @@ namespace fr
             ssl_socket_descriptor->fd = socket.get_socket_descriptor();
             set_remote_address(socket.get_remote_address());
             socket.set_descriptor(nullptr);
+            is_blocking = true; //A new connection starts out blocking
         }
 
         //Initialise SSL data structures
-- 
2.43.0


From 674e81072fa0aee1be411e10751b6fc70b85ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 27/27] fix: a header with an empty value was lost if it was
 the last one

---
 src/Http.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Http.cpp b/src/Http.cpp
index 644b7a3..ea48da8 100644
--- a/src/Http.cpp
+++ b/src/Http.cpp
@@ -246,7 +246,7 @@ namespace fr
         unsigned long data_begin;
         data_begin = str.find_first_not_of(' ', colon_pos + 1);
         if(data_begin == std::string::npos)
-            return;
+            data_begin = str.size(); //The value is empty
 
         size_t data_len = 0;
         for(size_t a = data_begin; a < str.size(); a++)
-- 
2.43.0

