From 0a593be026c4c74fdbbb5746de12ce692c0c65b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 01/45] fix: do not write past the server reply buffer when a
 full buffer is received

---
 src/smtpclientbase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 9dbcdcc..c9c26e3 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -691,7 +691,8 @@ int SMTPClientBase::getRawCommandReply() {
     setSocketToNonBlocking();
 
     do {
-        ssize_t bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0);
+        // Keep one byte for the null terminator
+        ssize_t bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH - 1, 0);
         if (bytes_received > 0) {
             receivedAtLeastOnce = true;
             outbuf[bytes_received] = '\0';  // Null-terminate the received data
-- 
2.43.0


From 80ad8fb37f9fbaab88a87ba9a91bd82236d0bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 02/45] fix: only accept three digits as a server reply code

---
 src/smtpclientbase.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index c9c26e3..fea32b6 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1068,13 +1068,12 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
 
 int SMTPClientBase::extractReturnCode(const char *pOutput) {
     if (pOutput != nullptr && strlen(pOutput) >= 3) {
-        std::string code_str { pOutput };
-        try {
-            return std::stoi(code_str.substr(0, 3));
-        }
-        catch (std::exception const &) {
+        std::string code_str { std::string(pOutput).substr(0, 3) };
+        // A reply code is made of exactly three digits
+        if (code_str.find_first_not_of("0123456789") != std::string::npos || code_str[0] == '0') {
             return -1;
         }
+        return std::stoi(code_str);
     }
     return -1;
 }
-- 
2.43.0


From 26008acc9daf978b1932470bfdaa76b8a3a3f93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 03/45] fix: wait for a complete server reply before judging
 it, in clear and over TLS

---
 src/forcedsecuresmtpclient.cpp | 18 +----------
 src/securesmtpclientbase.cpp   | 30 ++++++++++++-------
 src/serveroptionsanalyzer.cpp  |  2 +-
 src/smtpclientbase.cpp         | 55 +++++++++++++++++-----------------
 src/smtpclientbase.h           |  2 ++
 5 files changed, 51 insertions(+), 56 deletions(-)

diff --git a/src/forcedsecuresmtpclient.cpp b/src/forcedsecuresmtpclient.cpp
index e8bf919..fa78f0d 100644
--- a/src/forcedsecuresmtpclient.cpp
+++ b/src/forcedsecuresmtpclient.cpp
@@ -79,22 +79,6 @@ int ForcedSecureSMTPClient::establishConnectionWithServer() {
 }
 
 int ForcedSecureSMTPClient::checkServerGreetings() {
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    unsigned int waitTime = 0;
-    ssize_t bytes_received = 0;
-    while ((bytes_received = BIO_read(getBIO(), outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
-        crossPlatformSleep(1);
-        waitTime += 1;
-    }
-    if (waitTime < getCommandTimeout()) {
-        outbuf[bytes_received-1] = '\0';
-        addCommunicationLogItem(outbuf, "s");
-        int status_code = extractReturnCode(outbuf);
-        if (status_code == STATUS_CODE_SERVICE_READY) {
-            addCommunicationLogItem("Connected!");
-        }
-        return status_code;
-    }
-    return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+    return SecureSMTPClientBase::checkServerGreetings();
 }
 
diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 923cbd9..601a1bf 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -315,18 +315,28 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
 }
 
 int SecureSMTPClientBase::getServerReply() {
+    // Check if we are in the TLS mode of before it
+    if (mBIO == nullptr) {
+        return getRawCommandReply();
+    }
+    std::string fullResponse;
+    bool replyComplete = false;
     unsigned int waitTime {0};
-    int bytes_received {0};
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    while ((bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
-        crossPlatformSleep(1);
-        waitTime += 1;
-    }
-    if (waitTime < getCommandTimeout()) {
-        outbuf[bytes_received-1] = '\0';
-        setLastServerResponse(outbuf);
-        addCommunicationLogItem(outbuf, "s");
-        return extractReturnCode(outbuf);
+    do {
+        int bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH);
+        if (bytes_received > 0) {
+            fullResponse.append(outbuf, static_cast<size_t>(bytes_received));
+            replyComplete = isReplyComplete(&fullResponse);
+        } else {
+            crossPlatformSleep(1);
+            waitTime += 1;
+        }
+    } while (!replyComplete && waitTime < getCommandTimeout());
+    if (replyComplete) {
+        setLastServerResponse(fullResponse.c_str());
+        addCommunicationLogItem(fullResponse.c_str(), "s");
+        return extractReturnCode(fullResponse.c_str());
     }
     return -1;
 }
diff --git a/src/serveroptionsanalyzer.cpp b/src/serveroptionsanalyzer.cpp
index b7f4d47..d05c759 100644
--- a/src/serveroptionsanalyzer.cpp
+++ b/src/serveroptionsanalyzer.cpp
@@ -17,7 +17,7 @@ bool ServerOptionsAnalyzer::containsAllOptions(const std::string &optionsStr) {
     } else {
         lastLineStart += 2;  // Move past the \r\n
     }
-    if (sanitizedOptionsStr.substr(lastLineStart, 4) == "250 ") {
+    if (sanitizedOptionsStr.substr(lastLineStart, 4) == "250 " || sanitizedOptionsStr.substr(lastLineStart) == "250") {
         return true;
     }
     return false;
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index fea32b6..0bcdfb4 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -645,24 +645,14 @@ int SMTPClientBase::sendServerIdentification() {
 }
 
 int SMTPClientBase::checkServerGreetings() {
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    unsigned int waitTime = 0;
-    ssize_t bytes_received = 0;
-    while ((bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0)) <= 0
-            && waitTime < mCommandTimeOut) {
-        crossPlatformSleep(1);
-        waitTime += 1;
-    }
-    if (waitTime < mCommandTimeOut) {
-        outbuf[bytes_received-1] = '\0';
-        addCommunicationLogItem(outbuf, "s");
-        int status_code = extractReturnCode(outbuf);
-        if (status_code == STATUS_CODE_SERVICE_READY) {
-            addCommunicationLogItem("Connected!");
-        }
-        return status_code;
+    int status_code = getServerReply();
+    if (status_code == -1) {
+        return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
     }
-    return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+    if (status_code == STATUS_CODE_SERVICE_READY) {
+        addCommunicationLogItem("Connected!");
+    }
+    return status_code;
 }
 
 int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
@@ -685,28 +675,23 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
 
 int SMTPClientBase::getRawCommandReply() {
     std::string fullResponse;
-    bool receivedAtLeastOnce = false;
+    bool replyComplete = false;
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
     unsigned int waitTime {0};
     setSocketToNonBlocking();
 
     do {
-        // Keep one byte for the null terminator
-        ssize_t bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH - 1, 0);
+        ssize_t bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0);
         if (bytes_received > 0) {
-            receivedAtLeastOnce = true;
-            outbuf[bytes_received] = '\0';  // Null-terminate the received data
-            fullResponse += outbuf;
+            fullResponse.append(outbuf, static_cast<size_t>(bytes_received));
+            replyComplete = isReplyComplete(&fullResponse);
         } else {
-            if (bytes_received == -1 && receivedAtLeastOnce) {
-                break;
-            }
             crossPlatformSleep(1);
             waitTime += 1;
         }
-    } while (waitTime < mCommandTimeOut);
+    } while (!replyComplete && waitTime < mCommandTimeOut);
     setSocketToBlocking();
-    if (waitTime < mCommandTimeOut || receivedAtLeastOnce) {
+    if (replyComplete) {
         setLastServerResponse(fullResponse.c_str());
         addCommunicationLogItem(fullResponse.c_str(), "s");
         return extractReturnCode(fullResponse.c_str());
@@ -1078,6 +1063,20 @@ int SMTPClientBase::extractReturnCode(const char *pOutput) {
     return -1;
 }
 
+bool SMTPClientBase::isReplyComplete(std::string *pReply) {
+    size_t line_start { 0 };
+    size_t line_end { 0 };
+    while ((line_end = pReply->find('\n', line_start)) != std::string::npos) {
+        // The last line of a reply is the only one without an hyphen after the reply code
+        if (line_end - line_start < 4 || (*pReply)[line_start + 3] != '-') {
+            pReply->erase(line_end + 1);
+            return true;
+        }
+        line_start = line_end + 1;
+    }
+    return false;
+}
+
 ServerAuthOptions *ParseAuthenticationOptions(const std::string &authLine) {
     ServerAuthOptions *retval = nullptr;
     const std::string AUTH_LINE_PREFIX = "250-AUTH";
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 80f420e..0359551 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -200,6 +200,8 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
     static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments);
     static int extractReturnCode(const char *pOutput);
+    // Check if the data received contains the last line of a reply. If so, what follows this line is removed.
+    static bool isReplyComplete(std::string *pReply);
     static ServerAuthOptions *extractAuthenticationOptions(const char *pEhloOutput);
     static std::string generateHeaderAddressValues(const std::vector<jed_utils::MessageAddress *> &pList);
 
-- 
2.43.0


From 6bedc8ea3857ee9649f274b71a3bc01c64a19594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:57 +0000
Subject: [PATCH 04/45] fix: do not leak the parsed authentication options of a
 multi-line EHLO reply

---
 src/smtpclientbase.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 0bcdfb4..feb4724 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1132,9 +1132,10 @@ ServerAuthOptions *SMTPClientBase::extractAuthenticationOptions(const char *pEhl
             break;
         }
         ehlo_output.erase(0, ehlo_character_index + DELIMITER.length());
-        if (!ehlo_output.empty() && retVal == nullptr) {
-            retVal = ParseAuthenticationOptions(ehlo_output);
-        }
+    }
+    // The last line may come without an end of line
+    if (retVal == nullptr && !ehlo_output.empty()) {
+        retVal = ParseAuthenticationOptions(ehlo_output);
     }
     return retVal;
 }
-- 
2.43.0


From 042b3d16548b1b577ce3315f4302eaa486aa3de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 05/45] fix: recognize STARTTLS on the last EHLO line and
 whatever its case

---
 src/opportunisticsecuresmtpclient.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/opportunisticsecuresmtpclient.cpp b/src/opportunisticsecuresmtpclient.cpp
index aeba3d9..8f7fa55 100644
--- a/src/opportunisticsecuresmtpclient.cpp
+++ b/src/opportunisticsecuresmtpclient.cpp
@@ -1,5 +1,6 @@
 #include "opportunisticsecuresmtpclient.h"
 #include <openssl/err.h>
+#include <sstream>
 #include <string>
 #include <utility>
 #include "smtpserverstatuscodes.h"
@@ -109,6 +110,14 @@ bool OpportunisticSecureSMTPClient::isStartTLSSupported(const char *pServerRespo
         return false;
     }
 
-    const std::string STARTTLS_LINE_PREFIX { "250-STARTTLS" };
-    return serverResponse.find(STARTTLS_LINE_PREFIX) != std::string::npos;
+    // The option keyword is not case sensitive and can be on any line, including the last one (250 STARTTLS)
+    std::istringstream responseStream { StringUtils::toUpper(serverResponse) };
+    std::string line;
+    while (std::getline(responseStream, line)) {
+        line = StringUtils::trimRight(line) + " ";
+        if (line.compare(0, 13, "250-STARTTLS ") == 0 || line.compare(0, 13, "250 STARTTLS ") == 0) {
+            return true;
+        }
+    }
+    return false;
 }
-- 
2.43.0


From 2f0a670b24d63d2a5b2649461afa0ae5875de8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 06/45] fix: report an error instead of crashing when the
 server advertises no AUTH option

---
 src/smtpclientbase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index feb4724..439d309 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -745,6 +745,10 @@ void SMTPClientBase::setLastServerResponse(const char *pResponse) {
 
 int SMTPClientBase::authenticateClient() {
     if (mCredential != nullptr) {
+        // The server did not advertise any authentication mechanism
+        if (mAuthOptions == nullptr) {
+            return CLIENT_AUTHENTICATION_METHOD_NOTSUPPORTED;
+        }
         auto recommenedAuthOption = mCredential->getRecommendedAuthOption();
         if (mAuthOptions->Plain
             && (recommenedAuthOption == RecommendedAuthenticationMethod::kImplicit
-- 
2.43.0


From 6432c55e7abbb2b752cbdce5c72cd87be33b402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 07/45] fix: stop at the first recipient that fails

---
 src/smtpclientbase.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 439d309..f99a8c5 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -871,17 +871,16 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
 }
 
 int SMTPClientBase::addMailRecipients(jed_utils::MessageAddress **list, size_t count, const int RECIPIENT_OK) {
-    int rcpt_to_ret_code = RECIPIENT_OK;
-    std::for_each(list, list + count, [this, &rcpt_to_ret_code, &RECIPIENT_OK](MessageAddress *address) {
-            std::stringstream ss_rcpt_to;
-            ss_rcpt_to << "RCPT TO: <"s << address->getEmailAddress() << ">\r\n"s;
-            addCommunicationLogItem(ss_rcpt_to.str().c_str());
-            int ret_code = (*this.*sendCommandWithFeedbackPtr)(ss_rcpt_to.str().c_str(), CLIENT_SENDMAIL_RCPTTO_ERROR, CLIENT_SENDMAIL_RCPTTO_TIMEOUT);
-            if (ret_code != RECIPIENT_OK) {
-            rcpt_to_ret_code = ret_code;
-            }
-            });
-    return rcpt_to_ret_code;
+    for (size_t index = 0; index < count; index++) {
+        std::stringstream ss_rcpt_to;
+        ss_rcpt_to << "RCPT TO: <"s << list[index]->getEmailAddress() << ">\r\n"s;
+        addCommunicationLogItem(ss_rcpt_to.str().c_str());
+        int ret_code = (*this.*sendCommandWithFeedbackPtr)(ss_rcpt_to.str().c_str(), CLIENT_SENDMAIL_RCPTTO_ERROR, CLIENT_SENDMAIL_RCPTTO_TIMEOUT);
+        if (ret_code != RECIPIENT_OK) {
+            return ret_code;
+        }
+    }
+    return RECIPIENT_OK;
 }
 
 int SMTPClientBase::setMailHeaders(const Message &pMsg) {
-- 
2.43.0


From a494d0b1e23c4664e1d32e8baee780d9bee1676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 08/45] fix: report a failure to send the To and Cc headers

---
 src/smtpclientbase.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index f99a8c5..71aad66 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -909,13 +909,19 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     // To
     if (pMsg.getToCount() > 0) {
         std::vector<MessageAddress*> toAddrs(pMsg.getTo(), pMsg.getTo() + pMsg.getToCount());
-        addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_to_ret_code = addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_to_ret_code != 0) {
+            return header_to_ret_code;
+        }
     }
 
     // Cc
     if (pMsg.getCcCount() > 0) {
         std::vector<MessageAddress*> toCcs(pMsg.getCc(), pMsg.getCc() + pMsg.getCcCount());
-        addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_cc_ret_code = addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_cc_ret_code != 0) {
+            return header_cc_ret_code;
+        }
     }
 
     // Subject
-- 
2.43.0


From e54db708a26271aec712791b383fe38167a188d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 09/45] fix: add a period to the lines of the mail data that
 begin with one

---
 src/smtpclientbase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 71aad66..15ca902 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -967,6 +967,11 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
         body_real += attachments_text;
     }
 
+    // Transparency (RFC 5321 section 4.5.2): a line that begins with a period gets an additional one
+    for (size_t pos = 0; (pos = body_real.find("\r\n.", pos)) != std::string::npos; pos += 4) {
+        body_real.insert(pos + 2, ".");
+    }
+
     const size_t CHUNK_MAXLENGTH = 512;
     if (body_real.length() > CHUNK_MAXLENGTH) {
         // Split into chunk
-- 
2.43.0


From af1e781ab3d9900c1889ca3c749ab8fc75249ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:29 +0000
Subject: [PATCH 10/45] fix: use a boundary that the body of the message does
 not contain

---
 src/smtpclientbase.cpp | 23 +++++++++++++++++------
 src/smtpclientbase.h   |  4 +++-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 15ca902..0e3dab5 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -934,7 +934,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     }
 
     // Content-Type
-    std::string content_type { "Content-Type: multipart/related; boundary=sep\r\n\r\n" };
+    std::string content_type { "Content-Type: multipart/related; boundary=" + generateBoundary(pMsg) + "\r\n\r\n" };
     addCommunicationLogItem(content_type.c_str());
     int header_content_type_ret_code = (*this.*sendCommandPtr)(content_type.c_str(), CLIENT_SENDMAIL_HEADERCONTENTTYPE_ERROR);
     if (header_content_type_ret_code != 0) {
@@ -953,8 +953,9 @@ int SMTPClientBase::addMailHeader(const char *field, const char *value, int pErr
 
 int SMTPClientBase::setMailBody(const Message &pMsg) {
     // Body part
+    const std::string boundary { generateBoundary(pMsg) };
     std::ostringstream body_ss;
-    body_ss << "--sep\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << pMsg.getBody() << "\r\n";
+    body_ss << "--" << boundary << "\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << pMsg.getBody() << "\r\n";
     std::string body_real = body_ss.str();
     addCommunicationLogItem(body_real.c_str());
 
@@ -963,7 +964,7 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
 
     std::vector<Attachment*> vect_attachment(arr_attachment, arr_attachment + pMsg.getAttachmentsCount());
     if (pMsg.getAttachmentsCount() > 0) {
-        std::string attachments_text = createAttachmentsText(vect_attachment);
+        std::string attachments_text = createAttachmentsText(vect_attachment, boundary);
         body_real += attachments_text;
     }
 
@@ -1042,10 +1043,20 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
     mCommunicationLog[mCommunicationLogSize-1] = '\0';
 }
 
-std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments) {
+std::string SMTPClientBase::generateBoundary(const Message &pMsg) {
+    const std::string BASE_BOUNDARY { "sep" };
+    const std::string body { pMsg.getBody() };
+    std::string boundary { BASE_BOUNDARY };
+    for (size_t index = 1; body.find("--" + boundary) != std::string::npos; index++) {
+        boundary = BASE_BOUNDARY + std::to_string(index);
+    }
+    return boundary;
+}
+
+std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary) {
     std::string retval;
     for (const auto &item : pAttachments) {
-        retval += "\r\n--sep\r\n";
+        retval += "\r\n--" + pBoundary + "\r\n";
         retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + std::string(item->getName()) + "\"\r\n";
         if (item->getContentId() != nullptr && std::string(item->getContentId()).size() > 0) {
             retval += "X-Attachment-Id: " + std::string(item->getContentId()) + "\r\n";
@@ -1061,7 +1072,7 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
             delete[] b64;
         }
     }
-    retval += "\r\n--sep--";
+    retval += "\r\n--" + pBoundary + "--";
     return retval;
 }
 
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 0359551..0a5de44 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -198,7 +198,9 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int setMailBody(const Message &pMsg);
 
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
-    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments);
+    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary = "sep");
+    // Return a boundary that does not delimit anything in the body of the message
+    static std::string generateBoundary(const Message &pMsg);
     static int extractReturnCode(const char *pOutput);
     // Check if the data received contains the last line of a reply. If so, what follows this line is removed.
     static bool isReplyComplete(std::string *pReply);
-- 
2.43.0


From 24990532f8e73b86985233c7dc9acb4857230f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:52 +0000
Subject: [PATCH 11/45] fix: keep line breaks of the message fields out of the
 commands and headers

---
 src/smtpclientbase.cpp | 27 ++++++++++++++++++---------
 src/smtpclientbase.h   |  2 ++
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 0e3dab5..a4ec869 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -832,7 +832,7 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
     std::vector<std::string> mailFormats;
     // Method 1, 2 and 3
     mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
-    mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getDisplayName() + " " + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
+    mailFormats.push_back("MAIL FROM: <"s + toSingleLine(pMsg.getFrom().getDisplayName()) + " " + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
     mailFormats.push_back("MAIL FROM: "s + pMsg.getFrom().getEmailAddress() + "\r\n"s);
 
 
@@ -926,7 +926,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
 
     // Subject
     std::stringstream ss_header_subject;
-    ss_header_subject << "Subject: " << pMsg.getSubject() << "\r\n";
+    ss_header_subject << "Subject: " << toSingleLine(pMsg.getSubject()) << "\r\n";
     addCommunicationLogItem(ss_header_subject.str().c_str());
     int header_subject_ret_code = (*this.*sendCommandPtr)(ss_header_subject.str().c_str(), CLIENT_SENDMAIL_HEADERSUBJECT_ERROR);
     if (header_subject_ret_code != 0) {
@@ -946,7 +946,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
 
 int SMTPClientBase::addMailHeader(const char *field, const char *value, int pErrorCode) {
     std::stringstream ss_header_item;
-    ss_header_item << field << ": " << value << "\r\n";
+    ss_header_item << field << ": " << toSingleLine(value) << "\r\n";
     addCommunicationLogItem(ss_header_item.str().c_str());
     return (*this.*sendCommandPtr)(ss_header_item.str().c_str(), pErrorCode);
 }
@@ -1043,6 +1043,13 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
     mCommunicationLog[mCommunicationLogSize-1] = '\0';
 }
 
+std::string SMTPClientBase::toSingleLine(const std::string &pText) {
+    std::string retval { pText };
+    std::replace(retval.begin(), retval.end(), '\r', ' ');
+    std::replace(retval.begin(), retval.end(), '\n', ' ');
+    return retval;
+}
+
 std::string SMTPClientBase::generateBoundary(const Message &pMsg) {
     const std::string BASE_BOUNDARY { "sep" };
     const std::string body { pMsg.getBody() };
@@ -1056,14 +1063,16 @@ std::string SMTPClientBase::generateBoundary(const Message &pMsg) {
 std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary) {
     std::string retval;
     for (const auto &item : pAttachments) {
+        const std::string name { toSingleLine(item->getName()) };
+        const std::string content_id { toSingleLine(item->getContentId() != nullptr ? item->getContentId() : "") };
         retval += "\r\n--" + pBoundary + "\r\n";
-        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + std::string(item->getName()) + "\"\r\n";
-        if (item->getContentId() != nullptr && std::string(item->getContentId()).size() > 0) {
-            retval += "X-Attachment-Id: " + std::string(item->getContentId()) + "\r\n";
-            retval += "Content-ID: <" + std::string(item->getContentId()) + ">\r\n";
-            retval += "Content-Disposition: attachment; filename=\"" + std::string(item->getName()) + "\"\r\n";
+        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + name + "\"\r\n";
+        if (!content_id.empty()) {
+            retval += "X-Attachment-Id: " + content_id + "\r\n";
+            retval += "Content-ID: <" + content_id + ">\r\n";
+            retval += "Content-Disposition: attachment; filename=\"" + name + "\"\r\n";
         } else {
-            retval += "Content-Disposition: Inline; filename=\"" + std::string(item->getName()) + "\"\r\n";
+            retval += "Content-Disposition: Inline; filename=\"" + name + "\"\r\n";
         }
         retval += "Content-Transfer-Encoding: base64\r\n\r\n";
         const char* b64 = item->getBase64EncodedFile();
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 0a5de44..5cf0148 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -199,6 +199,8 @@ class SMTPCLIENTBASE_API SMTPClientBase {
 
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
     static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary = "sep");
+    // Replace the line breaks that would end a header or a command
+    static std::string toSingleLine(const std::string &pText);
     // Return a boundary that does not delimit anything in the body of the message
     static std::string generateBoundary(const Message &pMsg);
     static int extractReturnCode(const char *pOutput);
-- 
2.43.0


From cb9fc7c0e3bd2aa1f7cef44522e1e23070c2bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 12/45] fix: escape the special characters of an attachment
 name

---
 src/smtpclientbase.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index a4ec869..1deab69 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1063,7 +1063,11 @@ std::string SMTPClientBase::generateBoundary(const Message &pMsg) {
 std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary) {
     std::string retval;
     for (const auto &item : pAttachments) {
-        const std::string name { toSingleLine(item->getName()) };
+        std::string name { toSingleLine(item->getName()) };
+        // Escape the characters that are special inside of a quoted string
+        for (size_t pos = 0; (pos = name.find_first_of("\"\\", pos)) != std::string::npos; pos += 2) {
+            name.insert(pos, "\\");
+        }
         const std::string content_id { toSingleLine(item->getContentId() != nullptr ? item->getContentId() : "") };
         retval += "\r\n--" + pBoundary + "\r\n";
         retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + name + "\"\r\n";
-- 
2.43.0


From 1127595696e9074de2ef6871234158ecf4b51f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 13/45] fix: a file without extension has no media type

---
 src/attachment.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index b4c0622..22be8e6 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -154,7 +154,11 @@ const char *Attachment::getBase64EncodedFile() const {
 
 const char *Attachment::getMimeType() const {
     std::string filename_str { mFilename };
-    const std::string extension = StringUtils::toUpper(filename_str.substr(filename_str.find_last_of('.') + 1));
+    const size_t extension_pos = filename_str.find_last_of('.');
+    if (extension_pos == std::string::npos) {
+        return "";
+    }
+    const std::string extension = StringUtils::toUpper(filename_str.substr(extension_pos + 1));
     // Images
     if (extension == "PNG") {
         return "image/png";
-- 
2.43.0


From 3cdf89f4446a8efe83c1e3b994d7ff8cacc9ac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 14/45] fix: do not send QUIT again and again when sending it
 fails

---
 src/securesmtpclientbase.cpp | 6 ++++--
 src/smtpclient.cpp           | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 601a1bf..75ef2eb 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -102,10 +102,12 @@ void SecureSMTPClientBase::setAcceptSelfSignedCert(bool pValue) {
 }
 
 void SecureSMTPClientBase::cleanup() {
-    if (getBatchMode() && mIsConnected) {
+    const bool quitNeeded = getBatchMode() && mIsConnected;
+    // Reset the state first since sendQuitCommand calls this method if it fails
+    mIsConnected = false;
+    if (quitNeeded) {
         sendQuitCommand();
     }
-    mIsConnected = false;
     if (mCTX != nullptr) {
         SSL_CTX_free(mCTX);
     }
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 15c7594..7255115 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -45,10 +45,12 @@ SmtpClient& SmtpClient::operator=(SmtpClient &&other) noexcept {
 }
 
 void SmtpClient::cleanup() {
-    if (getBatchMode() && mIsConnected) {
+    const bool quitNeeded = getBatchMode() && mIsConnected;
+    // Reset the state first since sendQuitCommand calls this method if it fails
+    mIsConnected = false;
+    if (quitNeeded) {
         sendQuitCommand();
     }
-    mIsConnected = false;
     int socket { getSocketFileDescriptor() };
     if (socket != 0) {
 #ifdef _WIN32
-- 
2.43.0


From d37636cac48b8ac86f8c68146fcfa2048f3d63da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 15/45] fix: close the connection when sending a mail fails

---
 src/securesmtpclientbase.cpp |  6 +++---
 src/smtpclientbase.cpp       | 12 ++++++++++--
 src/smtpclientbase.h         |  2 ++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 75ef2eb..a915cb7 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -290,7 +290,7 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
 int SecureSMTPClientBase::sendCommand(const char *pCommand, int pErrorCode) {
     if (BIO_puts(mBIO, pCommand) < 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
-        cleanup();
+        abortConnection();
         return pErrorCode;
     }
     return 0;
@@ -303,7 +303,7 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
     }
     if (BIO_puts(mBIO, pCommand) < 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
-        cleanup();
+        abortConnection();
         return pErrorCode;
     }
 
@@ -312,7 +312,7 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
         return serverReplyCode;
     }
 
-    cleanup();
+    abortConnection();
     return pTimeoutCode;
 }
 
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 1deab69..5a344af 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -345,6 +345,7 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
     if (!mIsConnected) {
         int client_connect_ret_code = establishConnectionWithServer();
         if (client_connect_ret_code != 0) {
+            abortConnection();
             return client_connect_ret_code;
         }
     }
@@ -352,16 +353,19 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
 
     int set_mail_recipients_ret_code = setMailRecipients(pMsg);
     if (set_mail_recipients_ret_code != 0) {
+        abortConnection();
         return set_mail_recipients_ret_code;
     }
 
     int set_mail_headers_ret_code = setMailHeaders(pMsg);
     if (set_mail_headers_ret_code != 0) {
+        abortConnection();
         return set_mail_headers_ret_code;
     }
 
     int set_mail_body_ret_code = setMailBody(pMsg);
     if (set_mail_body_ret_code != 0) {
+        abortConnection();
         return set_mail_body_ret_code;
     }
 
@@ -371,6 +375,10 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
     return 0;
 }
 
+void SMTPClientBase::abortConnection() {
+    mIsConnected = false;
+    cleanup();
+}
 
 int SMTPClientBase::initializeSession() {
     delete[] mCommunicationLog;
@@ -667,7 +675,7 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
 #endif
     if (send(mSock, pCommand, commandSize, 0) == -1) {
         setLastSocketErrNo(errno);
-        cleanup();
+        abortConnection();
         return pErrorCode;
     }
     return 0;
@@ -713,7 +721,7 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode, int pTi
         return serverReplyCode;
     }
 
-    cleanup();
+    abortConnection();
     return pTimeoutCode;
 }
 
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 5cf0148..32bee1b 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -150,6 +150,8 @@ class SMTPCLIENTBASE_API SMTPClientBase {
  protected:
     bool mIsConnected;
     virtual void cleanup() = 0;
+    // Close the connection without sending any other command to the server
+    void abortConnection();
     int getSocketFileDescriptor() const;
     void clearSocketFileDescriptor();
     const char *getLastServerResponse() const;
-- 
2.43.0


From e5fcabe45b478b97e599836ad195114530b3da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:41 +0000
Subject: [PATCH 16/45] fix: use the encrypted commands once TLS is negotiated
 whatever earlier sessions did

---
 src/securesmtpclientbase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index a915cb7..f79227c 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -250,6 +250,8 @@ int SecureSMTPClientBase::startTLSNegotiation() {
         }
     }
 
+    // An earlier session of this client may have been unencrypted
+    setKeepUsingBaseSendCommands(false);
     addCommunicationLogItem("TLS session ready!");
 
 #ifdef _WIN32
-- 
2.43.0


From 587566c910cfaa2c1ae60cc96d86853d50d7448c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:48 +0000
Subject: [PATCH 17/45] fix: return the error code of a failure to set the
 socket flags

---
 src/smtpclientbase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 5a344af..546ea21 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -525,7 +525,8 @@ int SMTPClientBase::initializeSessionPOSIX() {
            host->h_addr,
            static_cast<size_t>(host->h_length));
     // Set non-blocking
-    if (int socketSetFlagsResult = setSocketToNonBlockingPOSIX() != 0) {
+    int socketSetFlagsResult = setSocketToNonBlockingPOSIX();
+    if (socketSetFlagsResult != 0) {
         return socketSetFlagsResult;
     }
     std::stringstream ss;
@@ -581,6 +582,7 @@ int SMTPClientBase::setSocketToNonBlockingPOSIX() {
     if ((arg = fcntl(mSock, F_GETFL, NULL)) < 0) {
         setLastSocketErrNo(errno);
         addCommunicationLogItem(strerror(errno));
+        return SOCKET_INIT_SESSION_FCNTL_GET_ERROR;
     }
     arg |= O_NONBLOCK;
     if (fcntl(mSock, F_SETFL, arg) < 0) {
-- 
2.43.0


From 423b5a1ed373b955dfcd07c690a640cdb0f7c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:55 +0000
Subject: [PATCH 18/45] fix: do not close a descriptor when the socket could
 not be created

---
 src/smtpclientbase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 546ea21..253ddb6 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -510,6 +510,7 @@ int SMTPClientBase::initializeSessionPOSIX() {
     mSock = socket(AF_INET, SOCK_STREAM, 0);
     if (mSock < 0) {
         setLastSocketErrNo(errno);
+        clearSocketFileDescriptor();
         addCommunicationLogItem(strerror(errno));
         return SOCKET_INIT_SESSION_CREATION_ERROR;
     }
-- 
2.43.0


From 6bdf3d0e597bc151edae80f2a11e067a3a93b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 19/45] fix: resolve the server name with a thread safe
 function

---
 src/smtpclientbase.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 253ddb6..d5732b7 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -514,17 +514,18 @@ int SMTPClientBase::initializeSessionPOSIX() {
         addCommunicationLogItem(strerror(errno));
         return SOCKET_INIT_SESSION_CREATION_ERROR;
     }
-    struct hostent *host = gethostbyname(getServerName());
-    if (!host || host->h_length < 0) {
+    // Unlike gethostbyname, getaddrinfo can be called by several threads
+    struct addrinfo hints {};
+    hints.ai_family = AF_INET;
+    hints.ai_socktype = SOCK_STREAM;
+    struct addrinfo *host = nullptr;
+    if (getaddrinfo(getServerName(), nullptr, &hints, &host) != 0 || host == nullptr) {
         return SOCKET_INIT_SESSION_GETHOSTBYNAME_ERROR;
     }
     struct sockaddr_in saddr_in {};
-    saddr_in.sin_family = AF_INET;
+    memcpy(&saddr_in, host->ai_addr, sizeof(saddr_in));
     saddr_in.sin_port = htons(static_cast<u_short>(getServerPort()));
-    saddr_in.sin_addr.s_addr = 0;
-    memcpy(reinterpret_cast<char*>(&(saddr_in.sin_addr)),
-           host->h_addr,
-           static_cast<size_t>(host->h_length));
+    freeaddrinfo(host);
     // Set non-blocking
     int socketSetFlagsResult = setSocketToNonBlockingPOSIX();
     if (socketSetFlagsResult != 0) {
-- 
2.43.0


From ee7a132e038b597540a03f408f7a75625a227d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 20/45] fix: connect with any descriptor value and after an
 interruption

---
 src/smtpclientbase.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index d5732b7..976c1c6 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -31,6 +31,7 @@
     #include <fcntl.h>
     #include <netdb.h>
     #include <netinet/in.h>
+    #include <poll.h>
     #include <sys/socket.h>
     #include <sys/types.h>
     #include <unistd.h>
@@ -503,8 +504,6 @@ void SMTPClientBase::doWSACleanup() {
 #else
 int SMTPClientBase::initializeSessionPOSIX() {
     // POSIX socket version
-    fd_set fdset;
-    struct timeval tv;
     socklen_t lon;
     int valopt;
     mSock = socket(AF_INET, SOCK_STREAM, 0);
@@ -538,12 +537,16 @@ int SMTPClientBase::initializeSessionPOSIX() {
     if (res < 0) {
         if (errno == EINPROGRESS) {
             do {
-                tv.tv_sec = mCommandTimeOut;
-                tv.tv_usec = 0;
-                FD_ZERO(&fdset);
-                FD_SET(mSock, &fdset);
-                res = select(mSock+1, NULL, &fdset, NULL, &tv);
-                if (res < 0 && errno != EINTR) {
+                // Unlike select, poll has no limit on the value of the descriptor
+                struct pollfd pfd {};
+                pfd.fd = mSock;
+                pfd.events = POLLOUT;
+                const unsigned int MAX_TIMEOUT = static_cast<unsigned int>((std::numeric_limits<int>::max)() / 1000);
+                res = poll(&pfd, 1, static_cast<int>(std::min(mCommandTimeOut, MAX_TIMEOUT)) * 1000);
+                if (res < 0 && errno == EINTR) {
+                    continue;
+                }
+                if (res < 0) {
                     setLastSocketErrNo(errno);
                     addCommunicationLogItem(strerror(errno));
                     return SOCKET_INIT_SESSION_CONNECT_ERROR;
-- 
2.43.0


From 40a3b9fa6d9aea2d27cf7937eca49f089f420867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:56 +0000
Subject: [PATCH 21/45] fix: allocate the empty subject and body as arrays

---
 src/message.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index dcddbb4..978cdff 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -42,7 +42,7 @@ Message::Message(const MessageAddress &pFrom,
       mAttachments(nullptr),
       mAttachmentCount(pAttachmentsSize) {
     if (pSubject == nullptr) {
-        mSubject = new char('\0');
+        mSubject = new char[1]();
     } else {
         size_t subject_len = strlen(pSubject);
         mSubject = new char[subject_len + 1];
@@ -51,7 +51,7 @@ Message::Message(const MessageAddress &pFrom,
     }
 
     if (pBody == nullptr) {
-        mBody = new char('\0');
+        mBody = new char[1]();
     } else {
         size_t body_len = strlen(pBody);
         mBody = new char[body_len + 1];
-- 
2.43.0


From fefb8d14b326dbb96ab2e0eef5b804f495e88031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 22/45] fix: copy the sender and do not keep freed lists when a
 message is assigned

---
 src/message.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index 978cdff..edb9627 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -184,6 +184,8 @@ Message::Message(const Message &other)
 // Copy assignment
 Message& Message::operator=(const Message &other) {
     if (this != &other) {
+        // mFrom
+        mFrom = other.mFrom;
         // mSubject
         delete[] mSubject;
         size_t subject_len = strlen(other.mSubject);
@@ -197,12 +199,13 @@ Message& Message::operator=(const Message &other) {
         strncpy(mBody, other.mBody, body_len);
         mBody[body_len] = '\0';
         // mTo and mToCount
-        if (mToCount > 0) {
+        if (mTo != nullptr) {
             for (unsigned int i = 0; i < mToCount; i++) {
                 delete mTo[i];
             }
             delete[] mTo;
         }
+        mTo = nullptr;
         if (other.mToCount > 0) {
             mTo = new MessageAddress*[other.mToCount];
             for (unsigned int i = 0; i < other.mToCount; i++) {
@@ -211,12 +214,13 @@ Message& Message::operator=(const Message &other) {
         }
         mToCount = other.mToCount;
         // mCc and mCCCount
-        if (mCCCount > 0) {
+        if (mCc != nullptr) {
             for (unsigned int i = 0; i < mCCCount; i++) {
                 delete mCc[i];
             }
             delete[] mCc;
         }
+        mCc = nullptr;
         if (other.mCCCount > 0) {
             mCc = new MessageAddress*[other.mCCCount];
             for (unsigned int i = 0; i < other.mCCCount; i++) {
@@ -225,12 +229,13 @@ Message& Message::operator=(const Message &other) {
         }
         mCCCount = other.mCCCount;
         // mBcc and mBCCCount
-        if (mBCCCount > 0) {
+        if (mBcc != nullptr) {
             for (unsigned int i = 0; i < mBCCCount; i++) {
                 delete mBcc[i];
             }
             delete[] mBcc;
         }
+        mBcc = nullptr;
         if (other.mBCCCount > 0) {
             mBcc = new MessageAddress*[other.mBCCCount];
             for (unsigned int i = 0; i < other.mBCCCount; i++) {
@@ -239,12 +244,13 @@ Message& Message::operator=(const Message &other) {
         }
         mBCCCount = other.mBCCCount;
         // Attachments and mAttachmentCount
-        if (mAttachmentCount > 0) {
+        if (mAttachments != nullptr) {
             for (unsigned int i = 0; i < mAttachmentCount; i++) {
                 delete mAttachments[i];
             }
             delete[] mAttachments;
         }
+        mAttachments = nullptr;
         if (other.mAttachmentCount > 0) {
             mAttachments = new Attachment*[other.mAttachmentCount];
             for (unsigned int i = 0; i < other.mAttachmentCount; i++) {
-- 
2.43.0


From 51869aff2c0f278b25372343bdb55a4484385e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 23/45] fix: move the sender when a message is move assigned

---
 src/message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.cpp b/src/message.cpp
index edb9627..7992f39 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -324,7 +324,7 @@ Message& Message::operator=(Message &&other) noexcept {
         }
         // Copy the data pointer and its length from the
         // source object.
-        mFrom = other.mFrom;
+        mFrom = std::move(other.mFrom);
         mSubject = other.mSubject;
         mBody = other.mBody;
         mTo = other.mTo;
-- 
2.43.0


From f4f5c1b9b5184acc46c73de5e89f60f2dc5bdc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:07 +0000
Subject: [PATCH 24/45] fix: release the credential of a C++ client and do not
 share a freed one

---
 src/cpp/forcedsecuresmtpclient.cpp        | 6 +++---
 src/cpp/forcedsecuresmtpclient.hpp        | 4 +++-
 src/cpp/opportunisticsecuresmtpclient.cpp | 6 +++---
 src/cpp/opportunisticsecuresmtpclient.hpp | 4 +++-
 src/cpp/smtpclient.cpp                    | 6 +++---
 src/cpp/smtpclient.hpp                    | 4 +++-
 6 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index f1cc91d..05403de 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -1,4 +1,5 @@
 #include "forcedsecuresmtpclient.hpp"
+#include <memory>
 #include <string>
 
 using namespace jed_utils::cpp;
@@ -28,7 +29,7 @@ std::string ForcedSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *ForcedSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool ForcedSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -55,8 +56,7 @@ void ForcedSecureSMTPClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<Credential>(pCredential);
 }
 
 void ForcedSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
diff --git a/src/cpp/forcedsecuresmtpclient.hpp b/src/cpp/forcedsecuresmtpclient.hpp
index 949c035..fe16a6f 100644
--- a/src/cpp/forcedsecuresmtpclient.hpp
+++ b/src/cpp/forcedsecuresmtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPFORCEDSECURESMTPCLIENT_H
 #define CPPFORCEDSECURESMTPCLIENT_H
 
+#include <memory>
 #include "credential.hpp"
 #include "../forcedsecuresmtpclient.h"
 
@@ -150,7 +151,8 @@ class CPP_FORCEDSECURESMTPCLIENT_API ForcedSecureSMTPClient : private jed_utils:
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    // Never modified once created, so that a copied client can share it
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 2932cfe..42b8dd3 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -1,4 +1,5 @@
 #include "opportunisticsecuresmtpclient.hpp"
+#include <memory>
 #include <string>
 
 using namespace jed_utils::cpp;
@@ -28,7 +29,7 @@ std::string OpportunisticSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *OpportunisticSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool OpportunisticSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -55,8 +56,7 @@ void OpportunisticSecureSMTPClient::setCredentials(const Credential &pCredential
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<Credential>(pCredential);
 }
 
 void OpportunisticSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
diff --git a/src/cpp/opportunisticsecuresmtpclient.hpp b/src/cpp/opportunisticsecuresmtpclient.hpp
index 8ed476b..09bebd3 100644
--- a/src/cpp/opportunisticsecuresmtpclient.hpp
+++ b/src/cpp/opportunisticsecuresmtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPOPPORTUNISTICSECURESMTPCLIENT_H
 #define CPPOPPORTUNISTICSECURESMTPCLIENT_H
 
+#include <memory>
 #include "credential.hpp"
 #include "../opportunisticsecuresmtpclient.h"
 
@@ -150,7 +151,8 @@ class CPP_OPPORTUNISTICSECURESMTPCLIENT_API OpportunisticSecureSMTPClient : priv
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    // Never modified once created, so that a copied client can share it
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 1a1d80a..5346525 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -1,4 +1,5 @@
 #include "smtpclient.hpp"
+#include <memory>
 #include <string>
 
 using namespace jed_utils::cpp;
@@ -28,7 +29,7 @@ std::string SmtpClient::getCommunicationLog() const {
 }
 
 const Credential *SmtpClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 void SmtpClient::setServerName(const std::string &pServerName) {
@@ -50,8 +51,7 @@ void SmtpClient::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 void SmtpClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<Credential>(pCredential);
 }
 
 void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
diff --git a/src/cpp/smtpclient.hpp b/src/cpp/smtpclient.hpp
index bc3a922..066fd39 100644
--- a/src/cpp/smtpclient.hpp
+++ b/src/cpp/smtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPSMTPCLIENT
 #define CPPSMTPCLIENT
 
+#include <memory>
 #include <string>
 #include "credential.hpp"
 #include "message.hpp"
@@ -143,7 +144,8 @@ class CPP_SMTPCLIENT_API SmtpClient : private jed_utils::SmtpClient {
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    // Never modified once created, so that a copied client can share it
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
-- 
2.43.0


From 87a540f5c05d93c8ef002a9f29e4a1c090c7512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:11 +0000
Subject: [PATCH 25/45] fix: keep the recommended authentication method given
 to the C++ SmtpClient

---
 src/cpp/smtpclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 5346525..a395afb 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -50,7 +50,8 @@ void SmtpClient::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 
 void SmtpClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
-                                                                    pCredential.getPassword().c_str()));
+                                                                    pCredential.getPassword().c_str(),
+                                                                    pCredential.getRecommendedAuthOption()));
     mCredential = std::make_shared<Credential>(pCredential);
 }
 
-- 
2.43.0


From f8c4de58b2fc3bbbfda414207e0f62bd70a038cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:14 +0000
Subject: [PATCH 26/45] fix: release the texts returned by the C interface in
 the C++ interface

---
 src/cpp/attachment.cpp                    | 6 ++++--
 src/cpp/forcedsecuresmtpclient.cpp        | 5 +++--
 src/cpp/opportunisticsecuresmtpclient.cpp | 5 +++--
 src/cpp/smtpclient.cpp                    | 5 +++--
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/cpp/attachment.cpp b/src/cpp/attachment.cpp
index 315116a..7f60f16 100644
--- a/src/cpp/attachment.cpp
+++ b/src/cpp/attachment.cpp
@@ -1,4 +1,6 @@
 #include "attachment.hpp"
+#include <memory>
+#include <string>
 
 using namespace jed_utils::cpp;
 
@@ -23,8 +25,8 @@ std::string Attachment::getContentId() const {
 }
 
 std::string Attachment::getBase64EncodedFile() const {
-    const char *retval = jed_utils::Attachment::getBase64EncodedFile();
-    return retval == nullptr ? "" : retval;
+    const std::unique_ptr<const char[]> retval { jed_utils::Attachment::getBase64EncodedFile() };
+    return retval == nullptr ? "" : retval.get();
 }
 
 std::string Attachment::getMimeType() const {
diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index 05403de..9ae60ca 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -68,13 +68,14 @@ void ForcedSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string ForcedSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const std::unique_ptr<char[]> errorMsg { jed_utils::SMTPClientBase::getErrorMessage(errorCode) };
+    return errorMsg.get();
 }
 
 int ForcedSecureSMTPClient::getErrorMessage_r(int errorCode,
                                   std::string &errorMessage) {
     const size_t MAXSIZE = 1024;
-    char *errorMsg = new char[MAXSIZE];
+    char errorMsg[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
     return result;
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 42b8dd3..df511bc 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -68,13 +68,14 @@ void OpportunisticSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string OpportunisticSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const std::unique_ptr<char[]> errorMsg { jed_utils::SMTPClientBase::getErrorMessage(errorCode) };
+    return errorMsg.get();
 }
 
 int OpportunisticSecureSMTPClient::getErrorMessage_r(int errorCode,
                                   std::string &errorMessage) {
     const size_t MAXSIZE = 1024;
-    char *errorMsg = new char[MAXSIZE];
+    char errorMsg[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
     return result;
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index a395afb..b8f4bc2 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -60,13 +60,14 @@ void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string SmtpClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const std::unique_ptr<char[]> errorMsg { jed_utils::SMTPClientBase::getErrorMessage(errorCode) };
+    return errorMsg.get();
 }
 
 int SmtpClient::getErrorMessage_r(int errorCode,
                                   std::string &errorMessage) {
     const size_t MAXSIZE = 1024;
-    char *errorMsg = new char[MAXSIZE];
+    char errorMsg[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
     return result;
-- 
2.43.0


From c7a52ffb1499f3ecd97a29134b0f08507328f367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:18 +0000
Subject: [PATCH 27/45] fix: release the previous content id of an attachment

---
 src/attachment.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index 22be8e6..d0b79cb 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -112,9 +112,11 @@ Attachment& Attachment::operator=(Attachment&& other) noexcept {
 
 void Attachment::setContentId(const char * pContentId) {
     size_t contentid_len = strlen(pContentId);
-    mContentId = new char[contentid_len + 1];
-    strncpy(mContentId, pContentId, contentid_len);
-    mContentId[contentid_len] = '\0';
+    char *contentid = new char[contentid_len + 1];
+    strncpy(contentid, pContentId, contentid_len);
+    contentid[contentid_len] = '\0';
+    delete[] mContentId;
+    mContentId = contentid;
 }
 
 const char *Attachment::getName() const {
-- 
2.43.0


From c98b3d4fb6d267c768194569bf2a29f107d984c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:25 +0000
Subject: [PATCH 28/45] fix: release the log, the response and the credential
 when a client is assigned

---
 src/smtpclientbase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 976c1c6..35b7cf6 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -125,6 +125,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         // mBatchMode
         mBatchMode = other.mBatchMode;
         // mCommunicationLog
+        delete[] mCommunicationLog;
         mCommunicationLog = other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr;
         if (mCommunicationLog != nullptr) {
             size_t communication_log_len = strlen(other.mCommunicationLog);
@@ -133,6 +134,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         }
         mCommunicationLogSize = other.mCommunicationLogSize;
         // mLastServerResponse
+        delete[] mLastServerResponse;
         mLastServerResponse = other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr;
         if (mLastServerResponse != nullptr) {
             size_t last_server_response_len = strlen(other.mLastServerResponse);
@@ -145,6 +147,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         delete mAuthOptions;
         mAuthOptions = other.mAuthOptions != nullptr ? new ServerAuthOptions(*other.mAuthOptions) : nullptr;
         // mCredential
+        delete mCredential;
         mCredential = other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr;
         mIsConnected = false;
         mSock = 0;
-- 
2.43.0


From 977b87f8874f6a5d313885a6043795308a8cc59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:31 +0000
Subject: [PATCH 29/45] fix: a copied communication log has the size of its own
 buffer

---
 src/smtpclientbase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 35b7cf6..04b4582 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -84,7 +84,7 @@ SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)
       mPort(other.mPort),
       mBatchMode(other.mBatchMode),
       mCommunicationLog(other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr),
-      mCommunicationLogSize(other.mCommunicationLogSize),
+      mCommunicationLogSize(other.mCommunicationLog != nullptr ? strlen(other.mCommunicationLog) + 1 : 0),
       mLastServerResponse(other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr),
       mCommandTimeOut(other.mCommandTimeOut),
       mLastSocketErrNo(other.mLastSocketErrNo),
@@ -132,7 +132,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
             strncpy(mCommunicationLog, other.mCommunicationLog, communication_log_len);
             mCommunicationLog[communication_log_len] = '\0';
         }
-        mCommunicationLogSize = other.mCommunicationLogSize;
+        mCommunicationLogSize = mCommunicationLog != nullptr ? strlen(mCommunicationLog) + 1 : 0;
         // mLastServerResponse
         delete[] mLastServerResponse;
         mLastServerResponse = other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr;
-- 
2.43.0


From a29d2db300b381bb6a6ba0c56086e5164b14a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:04 +0000
Subject: [PATCH 30/45] fix: deliver whole commands and do not get SIGPIPE on a
 closed connection

---
 src/smtpclientbase.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 04b4582..32e77f2 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -683,10 +683,22 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
 #else
     size_t commandSize = strlen(pCommand);
 #endif
-    if (send(mSock, pCommand, commandSize, 0) == -1) {
-        setLastSocketErrNo(errno);
-        abortConnection();
-        return pErrorCode;
+#ifdef MSG_NOSIGNAL
+    const int SEND_FLAGS = MSG_NOSIGNAL;  // No SIGPIPE if the server has closed the connection
+#else
+    const int SEND_FLAGS = 0;
+#endif
+    // The socket may accept only a part of the data at a time
+    decltype(commandSize) sentSize { 0 };
+    while (sentSize < commandSize) {
+        auto sendResult = send(mSock, pCommand + sentSize, commandSize - sentSize, SEND_FLAGS);
+        if (sendResult > 0) {
+            sentSize += static_cast<decltype(commandSize)>(sendResult);
+        } else if (sendResult == 0 || errno != EINTR) {
+            setLastSocketErrNo(errno);
+            abortConnection();
+            return pErrorCode;
+        }
     }
     return 0;
 }
-- 
2.43.0


From 95c7cdd59103de6fb9c6f4f1ad775a56a8a6e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:09 +0000
Subject: [PATCH 31/45] fix: do not get SIGPIPE on a closed connection that
 uses TLS

---
 src/securesmtpclientbase.cpp | 52 ++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index f79227c..f81a50c 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -1,6 +1,8 @@
 #include "securesmtpclientbase.h"
 #include <openssl/err.h>
 #include <openssl/x509_vfy.h>
+#include <cerrno>
+#include <csignal>
 #include <string>
 #include <utility>
 #include "serveroptionsanalyzer.h"
@@ -26,6 +28,46 @@
 using namespace std::literals::string_literals;
 using namespace jed_utils;
 
+namespace {
+/* OpenSSL writes to the socket without MSG_NOSIGNAL: this object discards the SIGPIPE
+   that the calling thread gets if the server has closed the connection. */
+class SigPipeGuard {
+ public:
+#ifdef _WIN32
+    SigPipeGuard() {}
+#else
+    SigPipeGuard() {
+        sigset_t pendingSignals;
+        sigemptyset(&pendingSignals);
+        sigpending(&pendingSignals);
+        mWasPending = sigismember(&pendingSignals, SIGPIPE) == 1;
+        sigemptyset(&mSigPipe);
+        sigaddset(&mSigPipe, SIGPIPE);
+        pthread_sigmask(SIG_BLOCK, &mSigPipe, &mPreviousMask);
+    }
+
+    ~SigPipeGuard() {
+        const int savedErrNo = errno;
+        const struct timespec noWait { 0, 0 };
+        if (!mWasPending) {
+            while (sigtimedwait(&mSigPipe, nullptr, &noWait) == -1 && errno == EINTR) {}
+        }
+        pthread_sigmask(SIG_SETMASK, &mPreviousMask, nullptr);
+        errno = savedErrNo;
+    }
+
+ private:
+    sigset_t mSigPipe;
+    sigset_t mPreviousMask;
+    bool mWasPending;
+
+ public:
+#endif
+    SigPipeGuard(const SigPipeGuard &) = delete;
+    SigPipeGuard& operator=(const SigPipeGuard &) = delete;
+};
+}  // namespace
+
 SecureSMTPClientBase::SecureSMTPClientBase(const char *pServerName, unsigned int pPort)
     : SMTPClientBase(pServerName, pPort),
     mBIO(nullptr),
@@ -113,6 +155,7 @@ void SecureSMTPClientBase::cleanup() {
     }
     mCTX = nullptr;
     if (mBIO != nullptr) {
+        const SigPipeGuard sigPipeGuard;
         BIO_free_all(mBIO);
     }
     mBIO = nullptr;
@@ -210,6 +253,8 @@ int SecureSMTPClientBase::startTLSNegotiation() {
                 static_cast<int>(verify_flag));
     }
 
+    const SigPipeGuard sigPipeGuard;
+
     /* Try to connect */
     if (BIO_do_connect(mBIO) <= 0) {
         cleanup();
@@ -290,7 +335,8 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
 }
 
 int SecureSMTPClientBase::sendCommand(const char *pCommand, int pErrorCode) {
-    if (BIO_puts(mBIO, pCommand) < 0) {
+    const SigPipeGuard sigPipeGuard;
+    if (BIO_puts(mBIO, pCommand) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         abortConnection();
         return pErrorCode;
@@ -303,7 +349,8 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
     if (mBIO == nullptr) {
         return sendRawCommand(pCommand, pErrorCode, pTimeoutCode);
     }
-    if (BIO_puts(mBIO, pCommand) < 0) {
+    const SigPipeGuard sigPipeGuard;
+    if (BIO_puts(mBIO, pCommand) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         abortConnection();
         return pErrorCode;
@@ -323,6 +370,7 @@ int SecureSMTPClientBase::getServerReply() {
     if (mBIO == nullptr) {
         return getRawCommandReply();
     }
+    const SigPipeGuard sigPipeGuard;
     std::string fullResponse;
     bool replyComplete = false;
     unsigned int waitTime {0};
-- 
2.43.0


From 8d684b6c39c3498282c662cdc0d922d6549059b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:37 +0000
Subject: [PATCH 32/45] fix: do not wait longer than the command timeout for a
 silent server

---
 src/securesmtpclientbase.cpp |  7 ++++---
 src/smtpclientbase.cpp       | 24 +++++++++++++++++++++++-
 src/smtpclientbase.h         |  1 +
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index f81a50c..50a0da0 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -2,6 +2,7 @@
 #include <openssl/err.h>
 #include <openssl/x509_vfy.h>
 #include <cerrno>
+#include <chrono>
 #include <csignal>
 #include <string>
 #include <utility>
@@ -373,7 +374,8 @@ int SecureSMTPClientBase::getServerReply() {
     const SigPipeGuard sigPipeGuard;
     std::string fullResponse;
     bool replyComplete = false;
-    unsigned int waitTime {0};
+    // A single read may already last as long as the timeout
+    const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(getCommandTimeout());
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
     do {
         int bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH);
@@ -382,9 +384,8 @@ int SecureSMTPClientBase::getServerReply() {
             replyComplete = isReplyComplete(&fullResponse);
         } else {
             crossPlatformSleep(1);
-            waitTime += 1;
         }
-    } while (!replyComplete && waitTime < getCommandTimeout());
+    } while (!replyComplete && std::chrono::steady_clock::now() < deadline);
     if (replyComplete) {
         setLastServerResponse(fullResponse.c_str());
         addCommunicationLogItem(fullResponse.c_str(), "s");
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 32e77f2..42bd338 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -277,6 +277,11 @@ void SMTPClientBase::setBatchMode(bool pEnabled) {
 
 void SMTPClientBase::setCommandTimeout(unsigned int pTimeOutInSeconds) {
     mCommandTimeOut = pTimeOutInSeconds;
+#ifndef _WIN32
+    if (mIsConnected) {
+        setSocketTimeoutPOSIX();
+    }
+#endif
 }
 
 void SMTPClientBase::setCredentials(const Credential &pCredential) {
@@ -582,7 +587,24 @@ int SMTPClientBase::initializeSessionPOSIX() {
         }
     }
     // Set to blocking mode again...
-    return setSocketToBlockingPOSIX();
+    socketSetFlagsResult = setSocketToBlockingPOSIX();
+    if (socketSetFlagsResult != 0) {
+        return socketSetFlagsResult;
+    }
+    return setSocketTimeoutPOSIX();
+}
+
+int SMTPClientBase::setSocketTimeoutPOSIX() {
+    // A server that falls silent must not block the client forever
+    struct timeval tv {};
+    tv.tv_sec = std::max(mCommandTimeOut, 1U);  // zero would mean without limit
+    if (setsockopt(mSock, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv)) < 0
+            || setsockopt(mSock, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv)) < 0) {
+        setLastSocketErrNo(errno);
+        addCommunicationLogItem(strerror(errno));
+        return SOCKET_INIT_SESSION_CONNECT_ERROR;
+    }
+    return 0;
 }
 
 int SMTPClientBase::setSocketToNonBlockingPOSIX() {
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 32bee1b..de2d5ce 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -171,6 +171,7 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int initializeSessionPOSIX();
     int setSocketToNonBlockingPOSIX();
     int setSocketToBlockingPOSIX();
+    int setSocketTimeoutPOSIX();
     #endif
     int setSocketToNonBlocking();
     int setSocketToBlocking();
-- 
2.43.0


From dbf927ea3affea8a9cd796197863956910d8f188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 33/45] fix: refuse an invalid email address in a bounded time

---
 src/messageaddress.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/messageaddress.cpp b/src/messageaddress.cpp
index 091c292..44fa81f 100644
--- a/src/messageaddress.cpp
+++ b/src/messageaddress.cpp
@@ -117,7 +117,13 @@ const char *MessageAddress::getDisplayName() const {
 }
 
 bool MessageAddress::isEmailAddressValid(const std::string &pEmailAddress) const {
-    std::regex emailPattern("^[_a-z0-9-]+(.[_a-z0-9-]+)*@[a-z0-9-]+(.[a-z0-9-]+)*(.[a-z]{2,4})$");
+    // Longer than any address allowed in a path (RFC 5321 section 4.5.3.1)
+    const size_t MAX_EMAIL_LENGTH = 320;
+    if (pEmailAddress.length() > MAX_EMAIL_LENGTH) {
+        return false;
+    }
+    // The separators do not match what surrounds them, otherwise the time to refuse an address would be exponential
+    std::regex emailPattern("^[_a-z0-9-]+([^_a-z0-9\\r\\n-][_a-z0-9-]+)*@[a-z0-9-]+([^a-z0-9\\r\\n-][a-z0-9-]+)*(.[a-z]{2,4})$");
     return regex_match(StringUtils::toLower(pEmailAddress), emailPattern);
 }
 
-- 
2.43.0


From 49a50a73396fd1b8ed91aa9b1e8a2d089eb77e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 34/45] fix: close the connection of a client that is assigned

---
 src/securesmtpclientbase.cpp | 2 ++
 src/smtpclient.cpp           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 50a0da0..3c36766 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -93,6 +93,7 @@ SecureSMTPClientBase::SecureSMTPClientBase(const SecureSMTPClientBase& other)
 // Assignment operator
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(const SecureSMTPClientBase& other) {
     if (this != &other) {
+        SecureSMTPClientBase::cleanup();
         SMTPClientBase::operator=(other);
         mBIO = nullptr;
         mCTX = nullptr;
@@ -120,6 +121,7 @@ SecureSMTPClientBase::SecureSMTPClientBase(SecureSMTPClientBase&& other) noexcep
 // Move assignement operator
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(SecureSMTPClientBase&& other) noexcept {
     if (this != &other) {
+        SecureSMTPClientBase::cleanup();
         // Copy the data pointer and its length from the source object.
         mBIO = other.mBIO;
         mCTX = other.mCTX;
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 7255115..4d6046d 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -26,6 +26,7 @@ SmtpClient::~SmtpClient() {
 // Assignment operator
 SmtpClient& SmtpClient::operator=(const SmtpClient &other) {
     if (this != &other) {
+        SmtpClient::cleanup();
         SMTPClientBase::operator=(other);
     }
     return *this;
@@ -39,6 +40,7 @@ SmtpClient::SmtpClient(SmtpClient &&other) noexcept
 // Move assignement
 SmtpClient& SmtpClient::operator=(SmtpClient &&other) noexcept {
     if (this != &other) {
+        SmtpClient::cleanup();
         SMTPClientBase::operator=(std::move(other));
     }
     return *this;
-- 
2.43.0


From 1a3fda1c6a6cc1d14be3c11b118e5aef1ef074c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 35/45] fix: do not overflow a buffer with a long server name

---
 src/securesmtpclientbase.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 3c36766..080f73f 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -214,13 +214,11 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     }
 
     /* Link bio channel, SSL session, and server endpoint */
-    const int SERVERNAMEANDPORT_LENGTH = 1024;
-    char name[SERVERNAMEANDPORT_LENGTH];
-    sprintf(name, "%s:%u", getServerName(), getServerPort());
+    const std::string name { getServerName() + ":"s + std::to_string(getServerPort()) };
     BIO_get_ssl(mBIO, &mSSL); /* session */
     SSL_set_fd(mSSL, getSocketFileDescriptor());
     SSL_set_mode(mSSL, SSL_MODE_AUTO_RETRY); /* robustness */
-    BIO_set_conn_hostname(mBIO, name); /* prepare to connect */
+    BIO_set_conn_hostname(mBIO, name.c_str()); /* prepare to connect */
 
 #ifdef _WIN32
     /* On Windows, we need to import all the ROOT certificates to
-- 
2.43.0


From 32d429496d95032b94a600b062c1d049d86de1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:57 +0000
Subject: [PATCH 36/45] fix: verify that the server certificate was issued for
 the server

---
 src/securesmtpclientbase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 080f73f..a02fafa 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -247,6 +247,11 @@ int SecureSMTPClientBase::startTLSNegotiation() {
         return SSL_CLIENT_STARTTLS_CTX_SET_DEFAULT_VERIFY_PATHS_ERROR;
     }
 #endif
+    /* The certificate must have been issued for this server (name or IP address) */
+    if (X509_VERIFY_PARAM_set1_ip_asc(SSL_get0_param(mSSL), getServerName()) != 1
+            && SSL_set1_host(mSSL, getServerName()) != 1) {
+        return SSL_CLIENT_STARTTLS_VERIFY_RESULT_ERROR;
+    }
     long verify_flag = SSL_get_verify_result(mSSL);
     if (verify_flag != X509_V_OK) {
         fprintf(stderr,
-- 
2.43.0


From 106fd1b0117349daf34486aa011060e6526f959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 37/45] fix: mask the credentials that the server repeats in
 its replies

---
 src/smtpclientbase.cpp | 28 ++++++++++++++++++++++++++++
 src/smtpclientbase.h   |  2 ++
 2 files changed, 30 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 42bd338..c9d5ab3 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1062,6 +1062,32 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
     return 0;
 }
 
+std::string SMTPClientBase::maskSecrets(const std::string &pText) const {
+    std::string retval { pText };
+    if (mCredential == nullptr) {
+        return retval;
+    }
+    const std::string MASK { "***************" };
+    const std::string username { mCredential->getUsername() };
+    const std::string password { mCredential->getPassword() };
+    const std::vector<std::string> payloads {
+        "\0"s + username + "\0"s + password,
+        "user=" + username + "\001auth=Bearer " + password + "\001\001",
+        password
+    };
+    std::vector<std::string> secrets;
+    for (const auto &payload : payloads) {
+        secrets.push_back(Base64::Encode(reinterpret_cast<const unsigned char*>(payload.c_str()), payload.length()));
+    }
+    secrets.push_back(password);
+    for (const auto &secret : secrets) {
+        for (size_t pos = 0; (pos = retval.find(secret, pos)) != std::string::npos; pos += MASK.length()) {
+            retval.replace(pos, secret.length(), MASK);
+        }
+    }
+    return retval;
+}
+
 void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPrefix) {
     std::string item { pItem };
     if (strcmp(pPrefix, "c") == 0) {
@@ -1073,6 +1099,8 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
             item.replace(start_pos, FROM.length(), TO);
             start_pos += TO.length();  // Handles case where 'to' is a substring of 'from'
         }
+    } else {
+        item = maskSecrets(item);
     }
     const std::string ENDOFLINE { "\n" };
     const std::string SEPARATOR { ": " };
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index de2d5ce..c976aab 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -200,6 +200,8 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int addMailHeader(const char *field, const char *value, int pErrorCode);
     int setMailBody(const Message &pMsg);
 
+    // Mask the password, and what was sent to authenticate with it, that the server may repeat in its replies
+    std::string maskSecrets(const std::string &pText) const;
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
     static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary = "sep");
     // Replace the line breaks that would end a header or a command
-- 
2.43.0


From ec2caec668d554f926d6af48bc9660ba297051a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 38/45] fix: do not fail because of a signal received during a
 TLS write or negotiation

---
 src/securesmtpclientbase.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index a02fafa..e138f96 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -67,6 +67,17 @@ class SigPipeGuard {
     SigPipeGuard(const SigPipeGuard &) = delete;
     SigPipeGuard& operator=(const SigPipeGuard &) = delete;
 };
+
+/* Call a function of a BIO again if it failed because of the arrival of a signal */
+template <typename Function>
+int callAgainIfInterrupted(BIO *pBIO, Function pFunction) {
+    int result;
+    do {
+        errno = 0;
+        result = static_cast<int>(pFunction(pBIO));
+    } while (result <= 0 && BIO_should_retry(pBIO) && errno == EINTR);
+    return result;
+}
 }  // namespace
 
 SecureSMTPClientBase::SecureSMTPClientBase(const char *pServerName, unsigned int pPort)
@@ -262,7 +273,7 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     const SigPipeGuard sigPipeGuard;
 
     /* Try to connect */
-    if (BIO_do_connect(mBIO) <= 0) {
+    if (callAgainIfInterrupted(mBIO, [](BIO *bio) { return BIO_do_connect(bio); }) <= 0) {
         cleanup();
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         return SSL_CLIENT_STARTTLS_BIO_CONNECT_ERROR;
@@ -270,7 +281,7 @@ int SecureSMTPClientBase::startTLSNegotiation() {
 
     /* Try to do the handshake */
     addCommunicationLogItem("<Negotiate a TLS session>", "c & s");
-    if (BIO_do_handshake(mBIO) <= 0) {
+    if (callAgainIfInterrupted(mBIO, [](BIO *bio) { return BIO_do_handshake(bio); }) <= 0) {
         cleanup();
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         return SSL_CLIENT_STARTTLS_BIO_HANDSHAKE_ERROR;
@@ -342,7 +353,7 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
 
 int SecureSMTPClientBase::sendCommand(const char *pCommand, int pErrorCode) {
     const SigPipeGuard sigPipeGuard;
-    if (BIO_puts(mBIO, pCommand) <= 0) {
+    if (callAgainIfInterrupted(mBIO, [pCommand](BIO *bio) { return BIO_puts(bio, pCommand); }) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         abortConnection();
         return pErrorCode;
@@ -356,7 +367,7 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
         return sendRawCommand(pCommand, pErrorCode, pTimeoutCode);
     }
     const SigPipeGuard sigPipeGuard;
-    if (BIO_puts(mBIO, pCommand) <= 0) {
+    if (callAgainIfInterrupted(mBIO, [pCommand](BIO *bio) { return BIO_puts(bio, pCommand); }) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         abortConnection();
         return pErrorCode;
-- 
2.43.0


From 77d19fa6a8e14289c5d07c37fa9f0fece9676d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:28 +0000
Subject: [PATCH 39/45] fix: setters must read the new value before releasing
 the old one

---
 src/credential.cpp     | 20 ++++++++++++--------
 src/smtpclientbase.cpp | 14 +++++++++-----
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/credential.cpp b/src/credential.cpp
index 7f4169e..8709d6a 100644
--- a/src/credential.cpp
+++ b/src/credential.cpp
@@ -127,11 +127,13 @@ void Credential::setUsername(const char *pUsername) {
         throw std::invalid_argument("Username cannot be null or empty");
     }
 
-    delete []mUsername;
+    // The argument may be the text returned by getUsername
     size_t username_len = strlen(pUsername);
-    mUsername = new char[username_len + 1];
-    strncpy(mUsername, pUsername, username_len);
-    mUsername[username_len] = '\0';
+    char *username = new char[username_len + 1];
+    strncpy(username, pUsername, username_len);
+    username[username_len] = '\0';
+    delete []mUsername;
+    mUsername = username;
 }
 
 void Credential::setPassword(const char *pPassword) {
@@ -139,11 +141,13 @@ void Credential::setPassword(const char *pPassword) {
         throw std::invalid_argument("Password cannot be null or empty");
     }
 
-    delete []mPassword;
+    // The argument may be the text returned by getPassword
     size_t password_len = strlen(pPassword);
-    mPassword = new char[password_len + 1];
-    strncpy(mPassword, pPassword, password_len);
-    mPassword[password_len] = '\0';
+    char *password = new char[password_len + 1];
+    strncpy(password, pPassword, password_len);
+    password[password_len] = '\0';
+    delete []mPassword;
+    mPassword = password;
 }
 
 void Credential::setRecommendedAuthOption(
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index c9d5ab3..a225610 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -264,11 +264,13 @@ void SMTPClientBase::setServerName(const char *pServerName) {
     if (pServerName == nullptr || strcmp(pServerName, "") == 0  || StringUtils::trim(servername_str).empty()) {
         throw std::invalid_argument("Server name cannot be null or empty");
     }
-    delete []mServerName;
+    // The argument may be the text returned by getServerName
     size_t server_name_len = strlen(pServerName);
-    mServerName = new char[server_name_len + 1];
-    strncpy(mServerName, pServerName, server_name_len);
-    mServerName[server_name_len] = '\0';
+    char *server_name = new char[server_name_len + 1];
+    strncpy(server_name, pServerName, server_name_len);
+    server_name[server_name_len] = '\0';
+    delete []mServerName;
+    mServerName = server_name;
 }
 
 void SMTPClientBase::setBatchMode(bool pEnabled) {
@@ -285,8 +287,10 @@ void SMTPClientBase::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 }
 
 void SMTPClientBase::setCredentials(const Credential &pCredential) {
+    // The argument may be the object returned by getCredentials
+    Credential *credential = new Credential(pCredential);
     delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = credential;
 }
 
 void SMTPClientBase::setKeepUsingBaseSendCommands(bool pValue) {
-- 
2.43.0


From 2583909b7543bcc121d2789b945dc04df931e5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:00 +0000
Subject: [PATCH 40/45] fix: the C++ MessageAddress equality operator must be
 defined

---
 src/cpp/messageaddress.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpp/messageaddress.cpp b/src/cpp/messageaddress.cpp
index 2e3a095..e9fa1c3 100644
--- a/src/cpp/messageaddress.cpp
+++ b/src/cpp/messageaddress.cpp
@@ -8,6 +8,10 @@ MessageAddress::MessageAddress(const std::string &pEmailAddress,
     : jed_utils::MessageAddress(pEmailAddress.c_str(), pDisplayName.c_str()) {
 }
 
+bool MessageAddress::operator==(const MessageAddress &pMsgComp) const {
+    return jed_utils::MessageAddress::operator==(pMsgComp);
+}
+
 MessageAddress::operator std::string() const {
     return jed_utils::MessageAddress::operator std::string();
 }
-- 
2.43.0


From 1cbdb776caa6efeeee8b78ae3dd4b9d9108e290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 41/45] fix: read an attachment to its end instead of trusting
 the announced size

A directory announces a size of 2^63-1 bytes (4 GiB were allocated and sent), a special file a size of 0 (nothing was sent), the size of a
file beyond 4 GiB was truncated, and a failed read was padded with zero bytes.
---
 src/attachment.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index d0b79cb..de95cea 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -1,8 +1,6 @@
 #include "attachment.h"
-#include <cstdint>
 #include <ios>
 #include <iostream>
-#include <limits>
 #include <string>
 #include "stringutils.h"
 
@@ -135,19 +133,19 @@ const char *Attachment::getBase64EncodedFile() const {
     // Open the file
     std::ifstream in(mFilename, std::ios::in | std::ios::binary);
     if (in) {
+        // The size that a directory or a special file announces is not what can be read from it
         std::string contents;
-        in.seekg(0, std::ios::end);
-        contents.resize(static_cast<unsigned int>(in.tellg()));
-        in.seekg(0, std::ios::beg);
-        if (static_cast<intmax_t>(contents.size()) <= std::numeric_limits<std::streamsize>::max()) {
-            in.read(&contents[0], static_cast<std::streamsize>(contents.size()));
-            in.close();
+        char buffer[4096];
+        do {
+            in.read(buffer, sizeof(buffer));
+            contents.append(buffer, static_cast<size_t>(in.gcount()));
+        } while (in);
+        if (!in.bad()) {
             std::string base64_result = Base64::Encode(reinterpret_cast<const unsigned char*>(contents.c_str()), contents.length());
             auto *base64_file = new char[base64_result.length() + 1];
             strncpy(base64_file, base64_result.c_str(), base64_result.length() + 1);
             return base64_file;
         }
-        in.close();
     }
 
     std::cerr << "Could not open file " << mFilename << std::endl;
-- 
2.43.0


From d112d654990d15c1bd1ee1e0779417d1b746a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:28 +0000
Subject: [PATCH 42/45] fix: no line breaks inside of long encoded credentials

---
 src/smtpclientbase.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index a225610..953ad7d 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -40,6 +40,13 @@
 using namespace std::literals::string_literals;
 using namespace jed_utils;
 
+// A command is a single line: the line breaks that the encoder puts into long texts have no place in it
+static std::string encodeOnSingleLine(unsigned char const *pBytes, size_t pLength) {
+    std::string retval { Base64::Encode(pBytes, pLength) };
+    retval.erase(std::remove_if(retval.begin(), retval.end(), [](char c) { return c == '\r' || c == '\n'; }), retval.end());
+    return retval;
+}
+
 SMTPClientBase::SMTPClientBase(const char *pServerName, unsigned int pPort)
     : mIsConnected(false),
       mServerName(nullptr),
@@ -834,7 +841,7 @@ int SMTPClientBase::authenticateWithMethodPlain() {
     std::string str_credentials = ss_credentials.str();
     std::stringstream ss;
     ss << "AUTH PLAIN "
-        << Base64::Encode(reinterpret_cast<const unsigned char*>(str_credentials.c_str()),
+        << encodeOnSingleLine(reinterpret_cast<const unsigned char*>(str_credentials.c_str()),
                 strlen(mCredential->getUsername()) + strlen(mCredential->getPassword()) + 2)  // + 2 for the two null characters
         << "\r\n";
     return (*this.*sendCommandWithFeedbackPtr)(ss.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
@@ -849,7 +856,7 @@ int SMTPClientBase::authenticateWithMethodLogin() {
         return CLIENT_AUTHENTICATE_ERROR;
     }
 
-    std::string encoded_username { Base64::Encode(reinterpret_cast<const unsigned char*>(mCredential->getUsername()),
+    std::string encoded_username { encodeOnSingleLine(reinterpret_cast<const unsigned char*>(mCredential->getUsername()),
             strlen(mCredential->getUsername())) };
     std::stringstream ss_username;
     ss_username << encoded_username << "\r\n";
@@ -859,7 +866,7 @@ int SMTPClientBase::authenticateWithMethodLogin() {
     if (username_return_code != STATUS_CODE_SERVER_CHALLENGE) {
         return CLIENT_AUTHENTICATE_ERROR;
     }
-    std::string encoded_password { Base64::Encode(reinterpret_cast<const unsigned char*>(mCredential->getPassword()),
+    std::string encoded_password { encodeOnSingleLine(reinterpret_cast<const unsigned char*>(mCredential->getPassword()),
             strlen(mCredential->getPassword())) };
     std::stringstream ss_password;
     ss_password << encoded_password << "\r\n";
@@ -873,7 +880,7 @@ int SMTPClientBase::authenticatedWithMethodXOauth2() {
 
     auto rawCredentials = encodedCredentials.str();
 
-    std::string credentials = Base64::Encode(
+    std::string credentials = encodeOnSingleLine(
         reinterpret_cast<const unsigned char*>(rawCredentials.c_str()), rawCredentials.length());
 
     std::stringstream cmd{};
@@ -1081,7 +1088,7 @@ std::string SMTPClientBase::maskSecrets(const std::string &pText) const {
     };
     std::vector<std::string> secrets;
     for (const auto &payload : payloads) {
-        secrets.push_back(Base64::Encode(reinterpret_cast<const unsigned char*>(payload.c_str()), payload.length()));
+        secrets.push_back(encodeOnSingleLine(reinterpret_cast<const unsigned char*>(payload.c_str()), payload.length()));
     }
     secrets.push_back(password);
     for (const auto &secret : secrets) {
-- 
2.43.0


From 26e14883fd3d86ba2b30db97ff938aaf13251304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:50 +0000
Subject: [PATCH 43/45] fix: a keyword that only begins with AUTH is not the
 authentication line

---
 src/smtpclientbase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 953ad7d..5a871d1 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1214,6 +1214,10 @@ ServerAuthOptions *ParseAuthenticationOptions(const std::string &authLine) {
     // Find the line that begin with 250-AUTH or 250 AUTH
     if (line.substr(0, AUTH_LINE_PREFIX.length()) == AUTH_LINE_PREFIX ||
         line.substr(0, AUTH_LINE_PREFIX_ALTERNATE.length()) == AUTH_LINE_PREFIX_ALTERNATE) {
+        // Other keywords may begin with the same letters
+        if (line.length() > AUTH_LINE_PREFIX.length() && line[AUTH_LINE_PREFIX.length()] != ' ' && line[AUTH_LINE_PREFIX.length()] != '=') {
+            return nullptr;
+        }
         retval = new ServerAuthOptions();
         // Find each options
         std::vector<std::string> options;
-- 
2.43.0


From ff48fbd99c0151058500f7aa1274cf7062823b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:43 +0000
Subject: [PATCH 44/45] fix: end the session of a batch that was switched off

---
 src/securesmtpclientbase.cpp | 2 +-
 src/smtpclient.cpp           | 2 +-
 src/smtpclientbase.cpp       | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index e138f96..ca6ce63 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -158,7 +158,7 @@ void SecureSMTPClientBase::setAcceptSelfSignedCert(bool pValue) {
 }
 
 void SecureSMTPClientBase::cleanup() {
-    const bool quitNeeded = getBatchMode() && mIsConnected;
+    const bool quitNeeded = mIsConnected;
     // Reset the state first since sendQuitCommand calls this method if it fails
     mIsConnected = false;
     if (quitNeeded) {
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 4d6046d..21c3050 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -47,7 +47,7 @@ SmtpClient& SmtpClient::operator=(SmtpClient &&other) noexcept {
 }
 
 void SmtpClient::cleanup() {
-    const bool quitNeeded = getBatchMode() && mIsConnected;
+    const bool quitNeeded = mIsConnected;
     // Reset the state first since sendQuitCommand calls this method if it fails
     mIsConnected = false;
     if (quitNeeded) {
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 5a871d1..cf19220 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -390,7 +390,8 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
     }
 
     if (!mBatchMode) {
-        cleanup();
+        // The session has already been ended by setMailBody
+        abortConnection();
     }
     return 0;
 }
-- 
2.43.0


From 4787759309b301a161e53566896d75d1b47fc8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 45/45] fix: count no recipients or attachments in an absent
 list

---
 src/message.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index 7992f39..272e3a3 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -32,15 +32,15 @@ Message::Message(const MessageAddress &pFrom,
         size_t pAttachmentsSize)
     : mFrom(pFrom),
       mTo(nullptr),
-      mToCount(pToCount),
+      mToCount(pTo != nullptr ? pToCount : 0),
       mCc(nullptr),
-      mCCCount(pCcCount),
+      mCCCount(pCc != nullptr ? pCcCount : 0),
       mBcc(nullptr),
-      mBCCCount(pBccCount),
+      mBCCCount(pBcc != nullptr ? pBccCount : 0),
       mSubject(nullptr),
       mBody(nullptr),
       mAttachments(nullptr),
-      mAttachmentCount(pAttachmentsSize) {
+      mAttachmentCount(pAttachments != nullptr ? pAttachmentsSize : 0) {
     if (pSubject == nullptr) {
         mSubject = new char[1]();
     } else {
-- 
2.43.0

