From 425a6d741fd466f343e9e3c8075beca80a2a1dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 01/45] fix: GSM-7 extension table maps form feed (not U+00FF)
 to 0x0A

The entry's value was an int, so encoding U+00FF raised TypeError, and a received form feed was dropped.
---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index ee15ebc..c381dce 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -26,7 +26,7 @@ else: #pragma: no cover
 
 # Tables can be found at: http://en.wikipedia.org/wiki/GSM_03.38#GSM_7_bit_default_alphabet_and_extension_table_of_3GPP_TS_23.038_.2F_GSM_03.38
 GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ`¿abcdefghijklmnopqrstuvwxyzäöñüà')
-GSM7_EXTENDED = {chr(0xFF): 0x0A,
+GSM7_EXTENDED = {chr(0x0C): chr(0x0A), # form feed
                  #CR2: chr(0x0D),
                  '^':  chr(0x14),
                  #SS2: chr(0x1B),
-- 
2.43.0


From abc4a0253dabe29b88bde3078d6cda8e88800cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 02/45] fix: refuse a bare escape control in GSM-7 encoding

It was emitted as is, and made the decoder read the next character from the extension table.
---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index c381dce..238ca90 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -676,7 +676,7 @@ def encodeGsm7(plaintext, discardInvalid=False):
         plaintext = str(plaintext)
     for char in plaintext:
         idx = GSM7_BASIC.find(char)
-        if idx != -1:
+        if idx != -1 and idx != 0x1B: # a bare ESC is not a character; it would swallow the one that follows
             result.append(idx)
         elif char in GSM7_EXTENDED:
             result.append(0x1B) # ESC - switch to extended table
-- 
2.43.0


From 074479fa441f0f18cda0e0692f7f404e84170a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 03/45] fix: packing an empty septet sequence gives no octets

It raised StopIteration, so an empty message could not be encoded.
---
 gsmmodem/pdu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 238ca90..6b480c4 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -726,7 +726,9 @@ def packSeptets(octets, padBits=0):
         octets = iter(octets)
     shift = padBits
     if padBits == 0:
-        prevSeptet = next(octets)
+        prevSeptet = next(octets, None)
+        if prevSeptet == None: # nothing to pack
+            return result
     else:
         prevSeptet = 0x00
     for octet in octets:
-- 
2.43.0


From 3c8cb17cad7d5d0c8d0ce6e7be25e5f86eb262fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 04/45] fix: split long messages by the space they need

The number of parts was computed from the single-message limit, but each part holds less: text was lost (e.g. 307-319 characters, 135-139 UCS2 characters). Extension characters were counted as one septet, which overfilled parts.
---
 gsmmodem/pdu.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 6b480c4..5f118ed 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -284,11 +284,13 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         alphabet = 0x00 # GSM-7    
         
     # Check if message should be concatenated
-    if len(text) > MAX_MESSAGE_LENGTH[alphabet]:
+    textLen = len(encodedText) if alphabet == 0x00 else len(text) # GSM-7 extension characters take two septets
+    if textLen > MAX_MESSAGE_LENGTH[alphabet]:
         # Text too long for single PDU - add "concatenation" User Data Header
         concatHeaderPrototype = Concatenation()
         concatHeaderPrototype.reference = reference
-        pduCount = int(len(text) / MAX_MESSAGE_LENGTH[alphabet]) + 1
+        pduTexts = _splitText(text, alphabet)
+        pduCount = len(pduTexts)
         concatHeaderPrototype.parts  = pduCount
         tpduFirstOctet |= 0x40
     else:
@@ -308,10 +310,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         if concatHeaderPrototype != None:
             concatHeader = copy(concatHeaderPrototype)
             concatHeader.number = i + 1
-            if alphabet == 0x00:
-                pduText = text[i*153:(i+1) * 153]
-            elif alphabet == 0x08:
-                pduText = text[i * 67 : (i + 1) * 67]
+            pduText = pduTexts[i]
             udh.extend(concatHeader.encode())
         else:
             pduText = text
@@ -354,6 +353,27 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         pdus.append(Pdu(pdu, tpdu_length))
     return pdus
 
+def _splitText(text, alphabet):
+    """ Splits a text that is too long for a single PDU into parts that fit in a PDU with a concatenation header
+    (153 septets for GSM-7, 67 characters for UCS2)
+    
+    :rtype: list of str
+    """
+    if alphabet == 0x08: # UCS2
+        return [text[i:i+67] for i in xrange(0, len(text), 67)]
+    parts = []
+    start = 0 # index of the first character of the current part
+    partLen = 0 # length of the current part in septets
+    for i in xrange(len(text)):
+        charLen = len(encodeGsm7(text[i]))
+        if partLen + charLen > 153:
+            parts.append(text[start:i])
+            start = i
+            partLen = 0
+        partLen += charLen
+    parts.append(text[start:])
+    return parts
+
 def decodeSmsPdu(pdu):
     """ Decodes SMS pdu data and returns a tuple in format (number, text)
     
-- 
2.43.0


From d534b08d3a7d82e14f4063b429b9fc8081f66ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 05/45] fix: decode exactly the declared number of GSM-7
 characters

A final @ was lost when the text ended on an octet boundary, the first character was lost after a header that ends on a septet boundary (e.g. a 16-bit concatenation reference), and a header without text raised StopIteration.
---
 gsmmodem/pdu.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 5f118ed..a752180 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -440,10 +440,12 @@ def decodeSmsPdu(pdu):
 def _decodeUserData(byteIter, userDataLen, dataCoding, udhPresent):
     """ Decodes PDU user data (UDHI (if present) and message text) """
     result = {}
+    headerLen = 0
     if udhPresent:
         # User Data Header is present
         result['udh'] = []
         udhLen = next(byteIter)
+        headerLen = udhLen + 1 # +1 for the UDH length indicator byte
         ieLenRead = 0
         # Parse and store UDH fields
         while ieLenRead < udhLen:
@@ -454,15 +456,20 @@ def _decodeUserData(byteIter, userDataLen, dataCoding, udhPresent):
         if dataCoding == 0x00: # GSM-7
             # Since we are using 7-bit data, "fill bits" may have been added to make the UDH end on a septet boundary
             shift = ((udhLen + 1) * 8) % 7 # "fill bits" needed to make the UDH end on a septet boundary
-            # Simulate another "shift" in the unpackSeptets algorithm in order to ignore the fill bits
-            prevOctet = next(byteIter)
-            shift += 1
 
     if dataCoding == 0x00: # GSM-7
-        if udhPresent:
-            userDataSeptets = unpackSeptets(byteIter, userDataLen, prevOctet, shift)
+        # userDataLen counts septets, including those taken up by the UDH (and its fill bits)
+        numberOfOctets = max((userDataLen * 7 + 7) // 8 - headerLen, 0)
+        numberOfSeptets = max(userDataLen - (headerLen * 8 + 6) // 7, 0)
+        octets = bytearray([octet for i, octet in zip(xrange(numberOfOctets), byteIter)])
+        if udhPresent and shift > 0 and len(octets) > 0:
+            # Simulate another "shift" in the unpackSeptets algorithm in order to ignore the fill bits
+            userDataSeptets = unpackSeptets(octets[1:], None, octets[0], shift + 1)
         else:
-            userDataSeptets = unpackSeptets(byteIter, userDataLen)
+            userDataSeptets = unpackSeptets(octets)
+        if len(userDataSeptets) < numberOfSeptets and len(octets) == numberOfOctets:
+            userDataSeptets.append(0x00) # unpackSeptets() leaves out a final zero value ("@")
+        del userDataSeptets[numberOfSeptets:]
         result['text'] = decodeGsm7(userDataSeptets)
     elif dataCoding == 0x02: # UCS2
         result['text'] = decodeUcs2(byteIter, userDataLen)
-- 
2.43.0


From 03e4373c4c5f3b691828b3bf3a57fcf05d9a6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 06/45] fix: keep the length of alphanumeric addresses exact

An eight-character name ending in @ lost its last character, and a seven-character name was declared one semi-octet too long.
---
 gsmmodem/pdu.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index a752180..d1d339a 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -575,8 +575,12 @@ def _decodeAddressField(byteIter, smscField=False, log=False):
         ton = (toa & 0x70) # bits 6,5,4 of type-of-address == type-of-number
         if ton == 0x50: 
             # Alphanumberic number            
+            numberOfSeptets = addressLen * 4 // 7 # addressLen is the number of semi-octets used
             addressLen = int(math.ceil(addressLen / 2.0))
             septets = unpackSeptets(byteIter, addressLen)
+            if len(septets) < numberOfSeptets:
+                septets.append(0x00) # unpackSeptets() leaves out a final zero value ("@")
+            del septets[numberOfSeptets:]
             addressValue = decodeGsm7(septets)
             return (addressValue, (addressLen + 2))
         else:
@@ -631,8 +635,9 @@ def _encodeAddressField(address, smscField=False):
             toa &= 0xFE # switch to "unknown" numbering plan
             alphaNumeric = True
     if  alphaNumeric:
-        addressValue = packSeptets(encodeGsm7(address, False))
-        addressLen = len(addressValue) * 2        
+        septets = encodeGsm7(address, False)
+        addressValue = packSeptets(septets)
+        addressLen = (len(septets) * 7 + 3) // 4 # number of semi-octets used
     else:
         addressValue = encodeSemiOctets(address)
         if smscField:            
-- 
2.43.0


From 291c571c5cdaae64aaed00b167b76ea52c936db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 07/45] fix: decoding zero semi-octets reads nothing

An address field without digits made the decoder read the rest of the PDU as the number.
---
 gsmmodem/pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index d1d339a..8721f45 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -675,6 +675,8 @@ def decodeSemiOctets(encodedNumber, numberOfOctets=None):
     number = []
     if type(encodedNumber) in (str, bytes):
         encodedNumber = bytearray(codecs.decode(encodedNumber, 'hex_codec'))
+    if numberOfOctets == 0:
+        return ''
     i = 0
     for octet in encodedNumber:        
         hexVal = hex(octet)[2:].zfill(2)   
-- 
2.43.0


From 21001fd198c1f7eaeed11b6e339754aa6c4a6994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 08/45] fix: decodeSmsPdu raises EncodingError for any PDU it
 cannot decode

Truncated or corrupt PDUs raised StopIteration, ValueError or IndexError.
---
 gsmmodem/pdu.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 8721f45..53b6349 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -390,6 +390,16 @@ def decodeSmsPdu(pdu):
     except Exception as e:
         # Python 2 raises TypeError, Python 3 raises binascii.Error
         raise EncodingError(e)
+    try:
+        return _decodePduOctets(pdu)
+    except EncodingError:
+        raise
+    except Exception as e:
+        # Truncated or otherwise invalid data
+        raise EncodingError('Invalid PDU data: {0!r}'.format(e))
+
+def _decodePduOctets(pdu):
+    """ Implementation of decodeSmsPdu(), for a bytearray containing PDU octets """
     result = {}
     pduIter = iter(pdu)
  
-- 
2.43.0


From c3b85475aba30661c71c0f8a91d8c9d4bfcd5c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 09/45] fix: keep quarter-hour offsets of text mode timestamps

The offset was truncated to whole hours.
---
 gsmmodem/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/util.py b/gsmmodem/util.py
index 1008e5c..0afdb73 100644
--- a/gsmmodem/util.py
+++ b/gsmmodem/util.py
@@ -41,7 +41,7 @@ def parseTextModeTimeStr(timeStr):
     :rtype: datetime.datetime
     """
     msgTime = timeStr[:-3]
-    tzOffsetHours = int(int(timeStr[-3:]) * 0.25)
+    tzOffsetHours = int(timeStr[-3:]) * 0.25
     return datetime.strptime(msgTime, '%y/%m/%d,%H:%M:%S').replace(tzinfo=SimpleOffsetTzInfo(tzOffsetHours))
 
 def lineStartingWith(string, lines):
-- 
2.43.0


From 0927cb4eef860d6a85efb33c6696d4480522147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 10/45] fix: iterating over a Trie no longer raises
 RuntimeError

StopIteration must not be raised inside a generator (PEP 479).
---
 tools/gsmtermlib/trie.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 184a2fd..0f34d64 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -182,5 +182,3 @@ class Trie(object):
     def __iter__(self):
         for k in list(self.keys()):
             yield k
-        raise StopIteration
-    
\ No newline at end of file
-- 
2.43.0


From 00db70decbfdab904b4d770125415a520267ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 11/45] fix: inserting a prefix of an existing Trie key keeps
 the existing key

The longer key was replaced by the inserted one.
---
 tools/gsmtermlib/trie.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index 0f34d64..c66a1b0 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -25,6 +25,9 @@ class Trie(object):
     
         if len(key) == 0:
             # All of the original key's chars have been nibbled away            
+            if self.key:
+                # This was a "leaf" previously - create a new branch for its current value
+                self.slots[self.key[0]] = Trie(self.key[1:], self.value)
             self.value = value
             self.key = ''
             return        
-- 
2.43.0


From bb407646444f98343848132f7361f9f9bb568d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 12/45] fix: Trie.longestCommonPrefix looks below a stored key

It returned an empty string for a prefix that extends a stored key.
---
 tools/gsmtermlib/trie.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index c66a1b0..fe0ea52 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -170,15 +170,12 @@ class Trie(object):
                     return self.slots[c]._longestCommonPrefix('', prefix + c)
                 else:
                     return prefix
-        elif self.key != None:
-            if self.key.startswith(key):
-                return prefix + self.key
-            else:
-                return '' # nothing starts with the specified prefix
         else:
             c = key[0]
             if c in self.slots:
                 return self.slots[c]._longestCommonPrefix(key[1:], prefix + c)
+            elif self.key != None and self.key.startswith(key):
+                return prefix + self.key
             else:
                 return '' # nothing starts with the specified prefix
     
-- 
2.43.0


From 63e2aff937d1cd9a16b5b75cc9da22a19860cb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 13/45] fix: only a complete final result line ends a response

The anchors applied to the first and last alternative only, so that e.g. a message line starting with OK ended the response.
---
 gsmmodem/serial_comms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index ac445f5..e134e42 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -18,7 +18,7 @@ class SerialComms(object):
     # End-of-line read terminator
     RX_EOL_SEQ = '\r\n'
     # End-of-response terminator
-    RESPONSE_TERM = re.compile(r'^OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT)$')
+    RESPONSE_TERM = re.compile(r'^(OK|ERROR|(\+CM[ES] ERROR: \d+)|(COMMAND NOT SUPPORT))\s*$')
     # Default timeout for serial port reads (in seconds)
     timeout = 1
         
-- 
2.43.0


From 93f41146de474bc338f709ab342adc8af1b5cea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 14/45] fix: an undecodable stored message no longer hides the
 next one

The header of the following message was skipped, and its PDU was returned (and deleted) under the wrong index.
---
 gsmmodem/modem.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index e468f34..044fd32 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -814,13 +814,12 @@ class GsmModem(SerialComms):
             readPdu = False
             result = self.write('AT+CMGL={0}'.format(status))
             for line in result:
-                if not readPdu:
-                    cmglMatch = cmglRegex.match(line)
-                    if cmglMatch:
-                        msgIndex = int(cmglMatch.group(1))
-                        msgStat = int(cmglMatch.group(2))
-                        readPdu = True
-                else:
+                cmglMatch = cmglRegex.match(line)
+                if cmglMatch:
+                    msgIndex = int(cmglMatch.group(1))
+                    msgStat = int(cmglMatch.group(2))
+                    readPdu = True
+                elif readPdu:
                     try:
                         smsDict = decodeSmsPdu(line)
                     except EncodingError:
-- 
2.43.0


From 5957b7e3c2500f8f90c60ccee98ea2315bc123ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 15/45] fix: list stored messages without text in text mode

Messages with an empty body were left out of the list.
---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 044fd32..5e90fd1 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -794,7 +794,7 @@ class GsmModem(SerialComms):
                 cmglMatch = cmglRegex.match(line)                
                 if cmglMatch:
                     # New message; save old one if applicable
-                    if msgIndex != None and len(msgLines) > 0:
+                    if msgIndex != None:
                         msgText = '\n'.join(msgLines)
                         msgLines = []
                         messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
@@ -804,7 +804,7 @@ class GsmModem(SerialComms):
                 else:
                     if line != 'OK':
                         msgLines.append(line)
-            if msgIndex != None and len(msgLines) > 0:
+            if msgIndex != None:
                 msgText = '\n'.join(msgLines)
                 msgLines = []
                 messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), msgText))
-- 
2.43.0


From 26287558c9ef19ce2fd4ad14b7e25298ccbfde79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 16/45] fix: never reuse the identifier of an active call

After one of several calls ended, the next call got the identifier of another active call and displaced it.
---
 gsmmodem/modem.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 5e90fd1..4455485 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -721,7 +721,7 @@ class GsmModem(SerialComms):
             # Don't wait for a call init update - base the call ID on the number of active calls
             self.write('ATD{0};'.format(number), timeout=timeout, waitForResponse=self._waitForAtdResponse)
             self.log.debug("Not waiting for outgoing call init update message")
-            callId = len(self.activeCalls) + 1
+            callId = self._unusedCallId()
             callType = 0 # Assume voice
             call = Call(self, callId, callType, number, callStatusUpdateCallbackFunc)
             self.activeCalls[callId] = call
@@ -926,11 +926,18 @@ class GsmModem(SerialComms):
                 call = activeCall
                 call.ringCount += 1
         if call == None:
-            callId = len(self.activeCalls) + 1;
+            callId = self._unusedCallId()
             call = IncomingCall(self, callerNumber, ton, callerName, callId, callType)
             self.activeCalls[callId] = call
         self.incomingCallCallback(call)    
     
+    def _unusedCallId(self):
+        """ :return: a call ID that is not used by any active call """
+        callId = len(self.activeCalls) + 1
+        while callId in self.activeCalls:
+            callId += 1
+        return callId
+
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
         """ Handler for "outgoing call initiated" event notification line """
         if self._dialEvent:
-- 
2.43.0


From d5584e8330936cb812e029dbd83966ad63e10b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 17/45] fix: hanging up an ended call does not forget another
 call

Its identifier may have been given to a new call in the meantime.
---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 4455485..1ac25cb 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1284,7 +1284,7 @@ class Call(object):
             self._gsmModem.write('ATH')
             self.answered = False
             self.active = False
-        if self.id in self._gsmModem.activeCalls:
+        if self._gsmModem.activeCalls.get(self.id) is self:
             del self._gsmModem.activeCalls[self.id]
 
 
-- 
2.43.0


From b147690170836a34d2b8b7ccb4a6efd350ba1f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 18/45] fix: an incoming call from a number being called is a
 call of its own

The outgoing call has no ring count, so handling the notification raised AttributeError.
---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 1ac25cb..5c59ce4 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -922,7 +922,7 @@ class GsmModem(SerialComms):
         
         call = None
         for activeCall in dictValuesIter(self.activeCalls):
-            if activeCall.number == callerNumber:
+            if isinstance(activeCall, IncomingCall) and activeCall.number == callerNumber:
                 call = activeCall
                 call.ringCount += 1
         if call == None:
-- 
2.43.0


From 351d01e0ed5b0860391bbaf2934b88cd5f96a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 19/45] fix: accept incoming calls that are not voice calls

Any other call type (e.g. REL ASYNC) raised KeyError and the call was never reported.
---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 5c59ce4..d13c154 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1301,7 +1301,7 @@ class IncomingCall(Call):
         :param callType: Type of the incoming call (VOICE, FAX, DATA, etc)
         """
         if type(callType) == str:
-            callType = self.CALL_TYPE_MAP[callType] 
+            callType = self.CALL_TYPE_MAP.get(callType, callType)
         super(IncomingCall, self).__init__(gsmModem, callId, callType, number)        
         # Type attribute of the incoming call
         self.ton = ton
-- 
2.43.0


From 2b0bfbb457d8ef3682f05796de2dd8ae75d99ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 20/45] fix: complete commands typed in lower case or with
 blanks around them

The matches were found, but the line was erased.
---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index 4bc665d..cd4da6f 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -554,7 +554,7 @@ class GsmTerm(RawTerm):
                     self._refreshInputPrompt(len(self.inputBuffer))
                 return
             else:
-                commonPrefix = self.completion.longestCommonPrefix(''.join(self.inputBuffer))
+                commonPrefix = self.completion.longestCommonPrefix(prefix)
                 self.inputBuffer = list(commonPrefix)
                 self.cursorPos = len(self.inputBuffer)
                 if matchLen > 20:
-- 
2.43.0


From f49b029b036b3aaa8c010ddfd1b4bb779b2a92ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 21/45] fix: completing an unknown command followed by = does
 not end the terminal

Looking up its help raised KeyError.
---
 tools/gsmtermlib/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/gsmtermlib/terminal.py b/tools/gsmtermlib/terminal.py
index cd4da6f..61c1132 100644
--- a/tools/gsmtermlib/terminal.py
+++ b/tools/gsmtermlib/terminal.py
@@ -569,7 +569,7 @@ class GsmTerm(RawTerm):
 
     def __printCommandSyntax(self, command):
         """ Command-completion helper method: print command syntax """
-        commandHelp = self.completion[command]
+        commandHelp = self.completion.get(command)
         if commandHelp != None and len(commandHelp) > 2:
             commandValues = commandHelp[2]
             #commandDefault = commandHelp[3]
-- 
2.43.0


From bef41f5fae8737bebcc26bd9cf8b2cd2fb3caa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 22/45] fix: unpacking no octets gives no septets

It raised TypeError, so a message without text could not be decoded.
---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 53b6349..4209176 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -831,7 +831,7 @@ def unpackSeptets(septets, numberOfSeptets=None, prevOctet=None, shift=7):
         
         if i == numberOfSeptets:
             break
-    if shift == 7:
+    if shift == 7 and prevOctet != None:
         b = prevOctet >> (8 - shift)
         if b:
             # The final septet value still needs to be unpacked
-- 
2.43.0


From 60c7a4d0827f51fa6d3f8014fb3e23ac2ec63cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:18 +0000
Subject: [PATCH 23/45] fix: section sign is GSM 03.38 character 0x5F

The default alphabet table had a grave accent, which is not in the GSM
alphabet, in its place: section signs could not be sent as GSM-7 and were
received as grave accents, and vice versa.
---
 gsmmodem/pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index 4209176..d16eeed 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -25,7 +25,7 @@ else: #pragma: no cover
     rawStrToByteArray = bytearray
 
 # Tables can be found at: http://en.wikipedia.org/wiki/GSM_03.38#GSM_7_bit_default_alphabet_and_extension_table_of_3GPP_TS_23.038_.2F_GSM_03.38
-GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ`¿abcdefghijklmnopqrstuvwxyzäöñüà')
+GSM7_BASIC = ('@£$¥èéùìòÇ\nØø\rÅåΔ_ΦΓΛΩΠΨΣΘΞ\x1bÆæßÉ !\"#¤%&\'()*+,-./0123456789:;<=>?¡ABCDEFGHIJKLMNOPQRSTUVWXYZÄÖÑÜ§¿abcdefghijklmnopqrstuvwxyzäöñüà')
 GSM7_EXTENDED = {chr(0x0C): chr(0x0A), # form feed
                  #CR2: chr(0x0D),
                  '^':  chr(0x14),
-- 
2.43.0


From 37ef7646f7cbdf713f12632e4c891eb953c8e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:20 +0000
Subject: [PATCH 24/45] fix: TPDU length excludes the whole service centre
 field

With an explicit SMSC the declared length (AT+CMGS=<length>) counted the
SMSC octets, so the modem would wait for data that never comes.
---
 gsmmodem/pdu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/pdu.py b/gsmmodem/pdu.py
index d16eeed..fea240a 100644
--- a/gsmmodem/pdu.py
+++ b/gsmmodem/pdu.py
@@ -306,6 +306,8 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         else:
             pdu.append(0x00) # Don't supply an SMSC number - use the one configured in the device 
     
+        smscLength = len(pdu) # not part of the TPDU
+    
         udh = bytearray()
         if concatHeaderPrototype != None:
             concatHeader = copy(concatHeaderPrototype)
@@ -349,7 +351,7 @@ def encodeSmsSubmitPdu(number, text, reference=0, validity=None, smsc=None, requ
         else:
             pdu.append(userDataLength)
         pdu.extend(userData) # User Data (message payload)
-        tpdu_length = len(pdu) - 1
+        tpdu_length = len(pdu) - smscLength
         pdus.append(Pdu(pdu, tpdu_length))
     return pdus
 
-- 
2.43.0


From 53c5d0c4225938d796d023234a21a0a0576e43db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:09 +0000
Subject: [PATCH 25/45] fix: recognise error responses with trailing blanks

SerialComms ends a response at a result line with trailing blanks, but write()
returned COMMAND NOT SUPPORT with a trailing blank as a success and lost the
code (and busy retry) of CME/CMS errors.
---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index d13c154..4e06074 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -414,7 +414,7 @@ class GsmModem(SerialComms):
         if self._writeWait > 0: # Sleep a bit if required (some older modems suffer under load)            
             time.sleep(self._writeWait)
         if waitForResponse:
-            cmdStatusLine = responseLines[-1]
+            cmdStatusLine = responseLines[-1].rstrip()
             if parseError:
                 if 'ERROR' in cmdStatusLine:
                     cmErrorMatch = self.CM_ERROR_REGEX.match(cmdStatusLine)
-- 
2.43.0


From 681b684595fb64d9a0689adb57e60b7a6da9a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:09 +0000
Subject: [PATCH 26/45] fix: strip blanks from the single-line list of
 supported commands

'+CLAC: X,Y' gave ' X', so the first command was never recognised.
---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 4e06074..a77cba2 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -507,7 +507,7 @@ class GsmModem(SerialComms):
                 commands = response[0]
                 if commands.startswith('+CLAC'):
                     commands = commands[6:] # remove the +CLAC: prefix before splitting
-                return commands.split(',')
+                return [cmd.strip() for cmd in commands.split(',')]
             elif len(response) > 2: # Multi-line response
                 return [cmd.strip() for cmd in response[:-1]]
             else:
-- 
2.43.0


From e87631e188b2be7e832c635a7515e0536ff3796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:09 +0000
Subject: [PATCH 27/45] fix: refuse an invalid status before anything is
 written, in both modes

In PDU mode listStoredSms() passed any value on to the modem; in text mode it
had already switched the message storage.
---
 gsmmodem/modem.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index a77cba2..8de1208 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -776,17 +776,17 @@ class GsmModem(SerialComms):
         :return: A list of Sms objects containing the messages read
         :rtype: list
         """
+        for key, val in dictItemsIter(Sms.TEXT_MODE_STATUS_MAP):
+            if status == val:
+                statusStr = key
+                break
+        else:
+            raise ValueError('Invalid status value: {0}'.format(status))
         self._setSmsMemory(readDelete=memory)
         messages = []
         delMessages = set()
         if self._smsTextMode:
             cmglRegex= re.compile(r'^\+CMGL: (\d+),"([^"]+)","([^"]+)",[^,]*,"([^"]+)"$')
-            for key, val in dictItemsIter(Sms.TEXT_MODE_STATUS_MAP):
-                if status == val:
-                    statusStr = key
-                    break
-            else:
-                raise ValueError('Invalid status value: {0}'.format(status))
             result = self.write('AT+CMGL="{0}"'.format(statusStr))
             msgLines = []
             msgIndex = msgStatus = number = msgTime = None
-- 
2.43.0


From e5221419712f861d229ede54d744f2f00633002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:09 +0000
Subject: [PATCH 28/45] fix: text-mode listing does not append other messages
 to a received one

The header and text of stored outgoing messages and status reports were added
to the text of the received message before them.
---
 gsmmodem/modem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 8de1208..c204070 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -801,6 +801,12 @@ class GsmModem(SerialComms):
                         delMessages.add(int(msgIndex))
                     msgIndex, msgStatus, number, msgTime = cmglMatch.groups()
                     msgLines = []
+                elif line.startswith('+CMGL:'):
+                    # Another kind of message (stored outgoing message, status report) - not part of the previous one
+                    if msgIndex != None:
+                        messages.append(ReceivedSms(self, Sms.TEXT_MODE_STATUS_MAP[msgStatus], number, parseTextModeTimeStr(msgTime), '\n'.join(msgLines)))
+                        delMessages.add(int(msgIndex))
+                    msgIndex = None
                 else:
                     if line != 'OK':
                         msgLines.append(line)
-- 
2.43.0


From 4bca7aa812447b2a19167da70248fc56dfbea681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:08 +0000
Subject: [PATCH 29/45] fix: recognise the end of Huawei calls of ten seconds
 and more

The duration in ^CEND:<call>,<duration>,<end status>,<cause> has more than one
digit for any call longer than nine seconds, which the pattern did not accept:
the call then stayed active for ever.
---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index c204070..843e1ed 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -253,7 +253,7 @@ class GsmModem(SerialComms):
             self.log.info('Loading Huawei call state update table')
             self._callStatusUpdates = ((re.compile(r'^\^ORIG:(\d),(\d)$'), self._handleCallInitiated),
                                        (re.compile(r'^\^CONN:(\d),(\d)$'), self._handleCallAnswered),
-                                       (re.compile(r'^\^CEND:(\d),(\d),(\d)+,(\d)+$'), self._handleCallEnded))
+                                       (re.compile(r'^\^CEND:(\d),(\d+),(\d+),(\d+)$'), self._handleCallEnded))
             self._mustPollCallStatus = False
             # Huawei modems use ^DTMF to send DTMF tones; use that instead
             Call.DTMF_COMMAND_BASE = '^DTMF={cid},'
-- 
2.43.0


From 53e40c86457fc1875bd541c57b84afd366b53f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:16 +0000
Subject: [PATCH 30/45] fix: do not lose the read thread when a command times
 out while its response line is handled

---
 gsmmodem/serial_comms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index e134e42..bdae46e 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -59,14 +59,16 @@ class SerialComms(object):
 
     def _handleLineRead(self, line, checkForResponseTerm=True):
         #print 'sc.hlineread:',line
-        if self._responseEvent and not self._responseEvent.is_set():
+        # Read the event only once: the waiting thread clears this attribute when it times out
+        responseEvent = self._responseEvent
+        if responseEvent and not responseEvent.is_set():
             # A response event has been set up (another thread is waiting for this response)
             self._response.append(line)
             if not checkForResponseTerm or self.RESPONSE_TERM.match(line):
                 # End of response reached; notify waiting thread
                 #print 'response:', self._response
                 self.log.debug('response: %s', self._response)
-                self._responseEvent.set()
+                responseEvent.set()
         else:            
             # Nothing was waiting for this - treat it as a notification
             self._notification.append(line)
-- 
2.43.0


From 78169173b51b0eaf3ed13866de9856f8f539eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:16 +0000
Subject: [PATCH 31/45] fix: do not lose the read thread when a command times
 out while its prompt is checked

---
 gsmmodem/serial_comms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index bdae46e..522d84f 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -103,8 +103,10 @@ class SerialComms(object):
                         if len(line) > 0:                          
                             #print 'calling handler'                      
                             self._handleLineRead(line)
-                    elif self._expectResponseTermSeq:
-                        if rxBuffer[-len(self._expectResponseTermSeq):] == self._expectResponseTermSeq:
+                    else:
+                        # Read the expected terminator only once: the waiting thread clears this attribute when it times out
+                        expectedTermSeq = self._expectResponseTermSeq
+                        if expectedTermSeq and rxBuffer[-len(expectedTermSeq):] == expectedTermSeq:
                             line = ''.join(rxBuffer) 
                             rxBuffer = []
                             self._handleLineRead(line, checkForResponseTerm=False)                                                
-- 
2.43.0


From 9048f55b07a8c284d2c0bd71ebcc95ebb9418429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:16 +0000
Subject: [PATCH 32/45] fix: do not leave a wait registered when writing to the
 port fails

---
 gsmmodem/serial_comms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gsmmodem/serial_comms.py b/gsmmodem/serial_comms.py
index 522d84f..3b9913e 100644
--- a/gsmmodem/serial_comms.py
+++ b/gsmmodem/serial_comms.py
@@ -128,7 +128,13 @@ class SerialComms(object):
                     self._expectResponseTermSeq = list(expectedResponseTermSeq) 
                 self._response = []
                 self._responseEvent = threading.Event()                
-                self.serial.write(data)
+                try:
+                    self.serial.write(data)
+                except Exception:
+                    # The command was not sent; nothing is waiting for a response
+                    self._responseEvent = None
+                    self._expectResponseTermSeq = False
+                    raise
                 if self._responseEvent.wait(timeout):
                     self._responseEvent = None
                     self._expectResponseTermSeq = False
-- 
2.43.0


From 2d41be1969a24bcd62c2d8b4468ef44482847083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:16 +0000
Subject: [PATCH 33/45] fix: call initiated notification arriving as dial()
 times out raised AttributeError

---
 gsmmodem/modem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 843e1ed..1ffd6a5 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -946,7 +946,8 @@ class GsmModem(SerialComms):
 
     def _handleCallInitiated(self, regexMatch, callId=None, callType=1):
         """ Handler for "outgoing call initiated" event notification line """
-        if self._dialEvent:
+        dialEvent = self._dialEvent # read only once: dial() clears this attribute when it times out
+        if dialEvent:
             if regexMatch:
                 groups = regexMatch.groups()
                 # Set self._dialReponse to (callId, callType)
@@ -956,7 +957,7 @@ class GsmModem(SerialComms):
                     self._dialResponse = (int(groups[0]), 1) # assume call type: VOICE
             else:
                 self._dialResponse = callId, callType
-            self._dialEvent.set()
+            dialEvent.set()
                 
     def _handleCallAnswered(self, regexMatch, callId=None):
         """ Handler for "outgoing call answered" event notification line """
-- 
2.43.0


From 61167c82c3550a292775431c222b6eb029bed6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:16 +0000
Subject: [PATCH 34/45] fix: status report arriving as sendSms() times out
 raised AttributeError

---
 gsmmodem/modem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 1ffd6a5..7215ed4 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1024,9 +1024,10 @@ class GsmModem(SerialComms):
             # Update sent SMS status if possible            
             if report.reference in self.sentSms:                
                 self.sentSms[report.reference].report = report
-            if self._smsStatusReportEvent:                
+            statusReportEvent = self._smsStatusReportEvent # read only once: sendSms() clears this attribute when it times out
+            if statusReportEvent:
                 # A sendSms() call is waiting for this response - notify waiting thread
-                self._smsStatusReportEvent.set()
+                statusReportEvent.set()
             else:
                 # Nothing is waiting for this report directly - use callback
                 self.smsStatusReportCallback(report)
-- 
2.43.0


From 3480f077d1f89df2bb05408c6edbaf49827fe3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:16 +0000
Subject: [PATCH 35/45] fix: status report lost if its sent message is released
 while it is being looked up

---
 gsmmodem/modem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 7215ed4..0f453a9 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1022,8 +1022,9 @@ class GsmModem(SerialComms):
             report = self.readStoredSms(msgIndex, msgMemory)
             self.deleteStoredSms(msgIndex)
             # Update sent SMS status if possible            
-            if report.reference in self.sentSms:                
-                self.sentSms[report.reference].report = report
+            sentSms = self.sentSms.get(report.reference) # weak reference; may disappear at any time
+            if sentSms != None:
+                sentSms.report = report
             statusReportEvent = self._smsStatusReportEvent # read only once: sendSms() clears this attribute when it times out
             if statusReportEvent:
                 # A sendSms() call is waiting for this response - notify waiting thread
-- 
2.43.0


From 22e6542aef009318e71537c57090cf5de2aa66b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:16 +0000
Subject: [PATCH 36/45] fix: USSD notification arriving as sendUssd() times out
 raised AttributeError

---
 gsmmodem/modem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 0f453a9..a48f278 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1128,11 +1128,12 @@ class GsmModem(SerialComms):
     
     def _handleUssd(self, lines):
         """ Handler for USSD event notification line(s) """
-        if self._ussdSessionEvent:
+        ussdSessionEvent = self._ussdSessionEvent # read only once: sendUssd() clears this attribute when it times out
+        if ussdSessionEvent:
             # A sendUssd() call is waiting for this response - parse it
             self._ussdResponse = self._parseCusdResponse(lines)
             # Notify waiting thread
-            self._ussdSessionEvent.set()
+            ussdSessionEvent.set()
     
     def _parseCusdResponse(self, lines):
         """ Parses one or more +CUSD notification lines (for USSD)
-- 
2.43.0


From 01f461599724fcd6eaffbfb8b10a15d7b6217349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 37/45] fix: read the message reference of +CMGS answers
 without a blank or with further fields

---
 gsmmodem/modem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index a48f278..9173178 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -119,6 +119,8 @@ class GsmModem(SerialComms):
     CLIP_REGEX = re.compile(r'^\+CLIP:\s*"(\+{0,1}\d+)",(\d+).*$')
     # Used for parsing new SMS message indications
     CMTI_REGEX = re.compile(r'^\+CMTI:\s*"([^"]+)",(\d+)$')
+    # Used for parsing the response to a sent SMS. Group 1 is the message reference
+    CMGS_REGEX = re.compile(r'^\+CMGS:\s*(\d+)')
     # Used for parsing SMS message reads (text mode)
     CMGR_SM_DELIVER_REGEX_TEXT = None
     # Used for parsing SMS status report message reads (text mode)
@@ -647,9 +649,11 @@ class GsmModem(SerialComms):
             for pdu in pdus:
                 self.write('AT+CMGS={0}'.format(pdu.tpduLength), timeout=3, expectedResponseTermSeq='> ')
                 result = lineStartingWith('+CMGS:', self.write(str(pdu), timeout=15, writeTerm=chr(26))) # example: +CMGS: xx
-        if result == None:
+        # Some modems omit the blank, or add further fields (such as a timestamp) after the reference
+        cmgsMatch = self.CMGS_REGEX.match(result) if result != None else None
+        if cmgsMatch == None:
             raise CommandError('Modem did not respond with +CMGS response')
-        reference = int(result[7:])
+        reference = int(cmgsMatch.group(1))
         self._smsRef = reference + 1
         if self._smsRef > 255:
             self._smsRef = 0
-- 
2.43.0


From b5abd94d0fe801df4b2dc557d846a0d023e89710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 38/45] fix: a final result code followed by blanks is not part
 of a listed message's text

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 9173178..0f2267a 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -812,7 +812,7 @@ class GsmModem(SerialComms):
                         delMessages.add(int(msgIndex))
                     msgIndex = None
                 else:
-                    if line != 'OK':
+                    if line.rstrip() != 'OK': # the final result code may be followed by blanks
                         msgLines.append(line)
             if msgIndex != None:
                 msgText = '\n'.join(msgLines)
-- 
2.43.0


From 9ffd12e5da9520319cbd1b4290a063ef2f5815f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:45 +0000
Subject: [PATCH 39/45] fix: a call with identifier 0 was never marked as ended

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 0f2267a..8b75284 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -992,7 +992,7 @@ class GsmModem(SerialComms):
                         if not filterUnanswered or (filterUnanswered == True and call.answered == False):
                             callId = call.id
                             break
-        if callId and callId in self.activeCalls:
+        if callId is not None and callId in self.activeCalls:
             self.activeCalls[callId].answered = False
             self.activeCalls[callId].active = False
             del self.activeCalls[callId]
-- 
2.43.0


From 4c85500613d4d9f0cca5581176179519f0f69283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:20 +0000
Subject: [PATCH 40/45] fix: a USSD message whose text contains RING was taken
 for an incoming call

---
 gsmmodem/modem.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 8b75284..69e1f82 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -869,11 +869,7 @@ class GsmModem(SerialComms):
         :param lines The lines that were read
         """
         for line in lines:
-            if 'RING' in line:
-                # Incoming call (or existing call is ringing)
-                self._handleIncomingCall(lines)
-                return
-            elif line.startswith('+CMTI'):
+            if line.startswith('+CMTI'):
                 # New SMS message indication
                 self._handleSmsReceived(line)
                 return
@@ -885,6 +881,10 @@ class GsmModem(SerialComms):
                 # SMS status report
                 self._handleSmsStatusReport(line)
                 return
+            elif 'RING' in line: # checked last: the text of a USSD message may contain this as well
+                # Incoming call (or existing call is ringing)
+                self._handleIncomingCall(lines)
+                return
             else:
                 # Check for call status updates            
                 for updateRegex, handlerFunc in self._callStatusUpdates:
-- 
2.43.0


From a9600fd9d75c668f51fc8a64e7e057d828320abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:20 +0000
Subject: [PATCH 41/45] fix: lines before a ring in the same notification were
 taken for part of its indication

---
 gsmmodem/modem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 69e1f82..3c859b9 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -868,7 +868,7 @@ class GsmModem(SerialComms):
         
         :param lines The lines that were read
         """
-        for line in lines:
+        for i, line in enumerate(lines):
             if line.startswith('+CMTI'):
                 # New SMS message indication
                 self._handleSmsReceived(line)
@@ -883,7 +883,7 @@ class GsmModem(SerialComms):
                 return
             elif 'RING' in line: # checked last: the text of a USSD message may contain this as well
                 # Incoming call (or existing call is ringing)
-                self._handleIncomingCall(lines)
+                self._handleIncomingCall(lines[i:]) # lines before the ring are not part of its indication
                 return
             else:
                 # Check for call status updates            
-- 
2.43.0


From fe4dc55e12bfbc6abe1633308d4299cc28d777b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:20 +0000
Subject: [PATCH 42/45] fix: the entry a trie was created with could not be
 deleted

---
 tools/gsmtermlib/trie.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/gsmtermlib/trie.py b/tools/gsmtermlib/trie.py
index fe0ea52..3ad31c8 100644
--- a/tools/gsmtermlib/trie.py
+++ b/tools/gsmtermlib/trie.py
@@ -76,6 +76,9 @@ class Trie(object):
                     del self.slots[c] # Remove the node
             else:
                 del trie[key[1:]]
+        elif key == self.key:
+            self.key = None
+            self.value = None
         else:
             raise KeyError(key)
                 
-- 
2.43.0


From 58fa57ef1c11f7569d9b9d5667493636de64df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:42 +0000
Subject: [PATCH 43/45] fix: sendsms asks for the text on Python 3 too
 (raw_input is not defined there)

---
 tools/sendsms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/sendsms.py b/tools/sendsms.py
index 31c42bd..665c1bd 100755
--- a/tools/sendsms.py
+++ b/tools/sendsms.py
@@ -12,6 +12,11 @@ import sys, logging
 from gsmmodem.modem import GsmModem, SentSms
 from gsmmodem.exceptions import TimeoutException, PinRequiredError, IncorrectPinError
 
+try:
+    raw_input
+except NameError: # Python 3
+    raw_input = input
+
 def parseArgs():
     """ Argument parser for Python 2.7 and above """
     from argparse import ArgumentParser
-- 
2.43.0


From b0d0fcee0df25a72cae28f75f17e1a9de5d7b38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:28 +0000
Subject: [PATCH 44/45] fix: registration answers with location information
 were not understood, so that coverage was reported without registration

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 3c859b9..37ef007 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -601,7 +601,7 @@ class GsmModem(SerialComms):
         checkCreg = True
         while block[0]:
             if checkCreg:
-                cregResult = lineMatching(r'^\+CREG:\s*(\d),(\d)$', self.write('AT+CREG?', parseError=False)) # example result: +CREG: 0,1
+                cregResult = lineMatching(r'^\+CREG:\s*(\d),(\d)(,|$)', self.write('AT+CREG?', parseError=False)) # example results: +CREG: 0,1 or (with location information) +CREG: 2,1,"00C3","1A0F"
                 if cregResult:
                     status = int(cregResult.group(2))
                     if status in (1, 5):
-- 
2.43.0


From ca73279e730ad26ad737687808ffc10dc761bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:28 +0000
Subject: [PATCH 45/45] fix: an incoming call whose hang-up was refused by the
 modem could no longer be answered

---
 gsmmodem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsmmodem/modem.py b/gsmmodem/modem.py
index 37ef007..e4e487a 100644
--- a/gsmmodem/modem.py
+++ b/gsmmodem/modem.py
@@ -1337,8 +1337,8 @@ class IncomingCall(Call):
 
     def hangup(self):
         """ End the phone call. """
-        self.ringing = False
         super(IncomingCall, self).hangup()
+        self.ringing = False
 
 class Ussd(object):
     """ Unstructured Supplementary Service Data (USSD) message.
-- 
2.43.0

