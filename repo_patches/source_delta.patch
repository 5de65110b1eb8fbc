From f966647b03b7bb096c0ba1d925c773cb4a16cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 01/96] fix: the lexer treats a NUL byte as end of input

---
 token/lexer.go       | 27 +++++++++++++++++----------
 token/swift_lexer.go |  2 +-
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/token/lexer.go b/token/lexer.go
index dc63286..f3e007e 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -7,7 +7,7 @@ import (
 )
 
 const (
-	eof                       = 0
+	eof                       = -1
 	dataElementDelimiter      = '+'
 	groupDataElementDelimiter = ':'
 	segmentDelimiter          = '\''
@@ -36,6 +36,7 @@ type Lexer struct {
 	state  LexerStateFn // the next lexing function to enter
 	pos    int          // current position in the input.
 	start  int          // start position of this item.
+	width  int          // width of the last byte read from input, 0 at the end of it.
 	tokens chan Token   // channel of scanned tokens.
 }
 
@@ -90,14 +91,16 @@ func (l *Lexer) emit(t Type) {
 	l.start = l.pos
 }
 
-// next returns the next byte in the input.
-func (l *Lexer) next() byte {
+// next returns the next byte in the input or eof if there is none left.
+func (l *Lexer) next() rune {
 	if l.pos >= len(l.input) {
+		l.width = 0
 		return eof
 	}
 	b := l.input[l.pos]
+	l.width = 1
 	l.pos++
-	return b
+	return rune(b)
 }
 
 // ignore skips over the pending input before this point.
@@ -108,12 +111,12 @@ func (l *Lexer) ignore() {
 // backup steps back one byte.
 // Can be called only once per call of next.
 func (l *Lexer) backup() {
-	l.pos--
+	l.pos -= l.width
 }
 
 // peek returns but does not consume
 // the next byte in the input.
-func (l *Lexer) peek() byte {
+func (l *Lexer) peek() rune {
 	r := l.next()
 	l.backup()
 	return r
@@ -122,7 +125,7 @@ func (l *Lexer) peek() byte {
 // accept consumes the next byte
 // if it's from the valid set.
 func (l *Lexer) accept(valid ...byte) bool {
-	if bytes.IndexByte(valid, l.next()) >= 0 {
+	if isOneOf(l.next(), valid) {
 		return true
 	}
 	l.backup()
@@ -131,7 +134,7 @@ func (l *Lexer) accept(valid ...byte) bool {
 
 // acceptRun consumes a run of bytes from the valid set.
 func (l *Lexer) acceptRun(valid []byte) {
-	for bytes.IndexByte(valid, l.next()) >= 0 {
+	for isOneOf(l.next(), valid) {
 	}
 	l.backup()
 }
@@ -279,10 +282,14 @@ func lexNumber(l *Lexer) LexerStateFn {
 
 }
 
-func isDelimiter(r byte) bool {
+func isOneOf(r rune, valid []byte) bool {
+	return r != eof && bytes.IndexByte(valid, byte(r)) >= 0
+}
+
+func isDelimiter(r rune) bool {
 	return r == dataElementDelimiter || r == segmentDelimiter || r == groupDataElementDelimiter
 }
 
-func isSyntaxSymbol(r byte) bool {
+func isSyntaxSymbol(r rune) bool {
 	return r == dataElementDelimiter || r == segmentDelimiter || r == groupDataElementDelimiter || r == escapeCharacter || r == binaryIdentifier
 }
diff --git a/token/swift_lexer.go b/token/swift_lexer.go
index 1dfa77f..d4c9513 100644
--- a/token/swift_lexer.go
+++ b/token/swift_lexer.go
@@ -197,7 +197,7 @@ func isTagBoundary(s *Lexer) bool {
 	return isTagBoundary
 }
 
-func isSwiftAlphaNumeric(r byte) bool {
+func isSwiftAlphaNumeric(r rune) bool {
 	return r == dash || r == lineFeed || r == ' ' || ('\'' <= r && r <= ')') || ('+' <= r && r <= ':') || r == '?' || ('A' <= r && r <= 'Z') || ('a' <= r && r <= 'z')
 }
 
-- 
2.43.0


From 84baf27481c3edbe808fc0f72b4f349fcf52fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 02/96] fix: the lexer panics on a binary length that exceeds
 the input

---
 token/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/token/lexer.go b/token/lexer.go
index f3e007e..632bc35 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -222,6 +222,9 @@ func lexBinaryData(l *Lexer) LexerStateFn {
 	if !l.accept('@') {
 		return l.errorf("Binary length must contain of digits only")
 	}
+	if length > len(l.input)-l.pos {
+		return l.errorf("Unexpected end of input")
+	}
 	l.pos += length
 	p := l.peek()
 	if isDelimiter(p) {
-- 
2.43.0


From d6ae31a2b1e52fd56c0493c12a3a01f15981d37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 03/96] fix: FindSegment returns segments whose ID merely
 starts with the given one

---
 message/segment_extractor.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index 387f845..266634c 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -44,9 +44,8 @@ func (s *SegmentExtractor) Extract() ([][]byte, error) {
 // FindSegment searches for a given ID and returns the first appearing segment
 // bytes if present
 func (s *SegmentExtractor) FindSegment(id string) []byte {
-	byteID := []byte(id)
 	for _, segment := range s.segments {
-		if bytes.HasPrefix(segment, byteID) {
+		if string(bytes.SplitN(segment, []byte(":"), 2)[0]) == id {
 			return segment
 		}
 	}
-- 
2.43.0


From a200b19c70c70ae2a60f5a8c38caeb4053acd363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 04/96] fix: a segment cut off at the end of a message is
 dropped silently

---
 message/segment_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index 266634c..5409011 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -36,6 +36,9 @@ func (s *SegmentExtractor) Extract() ([][]byte, error) {
 			current = []byte{}
 		}
 	}
+	if len(current) != 0 {
+		return nil, fmt.Errorf("%T: Unexpected end of input: unterminated segment %q", s, current)
+	}
 	result := make([][]byte, len(s.segments))
 	copy(result, s.segments)
 	return result, nil
-- 
2.43.0


From 4a1b3fee64cfba2b13e8d27fee97fe29efee29b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 05/96] fix: extracting segments twice duplicates them

---
 message/segment_extractor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index 5409011..aee6f20 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -24,6 +24,7 @@ type SegmentExtractor struct {
 // of the result so it is safe to manipulate it
 func (s *SegmentExtractor) Extract() ([][]byte, error) {
 	var current []byte
+	s.segments = nil
 	lexer := token.NewLexer("SegmentExtractor", s.rawMessage)
 	for lexer.HasNext() {
 		t := lexer.Next()
-- 
2.43.0


From 4381ac2f32fc5d946c32967cecb02b940abae31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 06/96] fix: element extraction overwrites the byte behind its
 input and fails on delimiters inside values

---
 element/element_extractor.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/element/element_extractor.go b/element/element_extractor.go
index 6b84032..bffc1a4 100644
--- a/element/element_extractor.go
+++ b/element/element_extractor.go
@@ -1,7 +1,6 @@
 package element
 
 import (
-	"bytes"
 	"fmt"
 
 	"github.com/mitch000001/go-hbci/token"
@@ -15,12 +14,6 @@ func ExtractElements(dataElementGroup []byte) ([][]byte, error) {
 
 // newElementExtractor creates a new GroupExtractor ready to use
 func newElementExtractor(dataElementGroup []byte) *groupExtractor {
-	// TODO: workaround to get the lexer work properly for us. Maybe we should adopt the lexer?
-	if bytes.LastIndexFunc(dataElementGroup, func(r rune) bool {
-		return r == '+' || r == '\''
-	}) == -1 {
-		dataElementGroup = append(dataElementGroup, '+')
-	}
 	return &groupExtractor{
 		rawDataElementGroup: dataElementGroup,
 	}
@@ -35,13 +28,22 @@ type groupExtractor struct {
 // Extract extracts DataElements from the underlying DataElementGroup
 func (e *groupExtractor) Extract() ([][]byte, error) {
 	var current []byte
-	lexer := token.NewLexer("ElementExtractor", e.rawDataElementGroup)
+	// The lexer expects every element to be delimited, the last one included.
+	// The delimiter is appended to a copy as the input belongs to the caller.
+	rawLength := len(e.rawDataElementGroup)
+	input := append(e.rawDataElementGroup[:rawLength:rawLength], '+')
+	terminated := false
+	lexer := token.NewLexer("ElementExtractor", input)
 	for lexer.HasNext() {
 		t := lexer.Next()
 		currentType := t.Type()
 		if currentType == token.ERROR {
 			return nil, fmt.Errorf("%T: SyntaxError at position %d: %q\n(%q)", e, t.Pos(), t.Value(), e.rawDataElementGroup)
 		}
+		if terminated && t.Pos() == rawLength {
+			break
+		}
+		terminated = currentType == token.SEGMENT_END_MARKER || currentType == token.DATA_ELEMENT_SEPARATOR
 		if currentType == token.SEGMENT_END_MARKER || currentType == token.DATA_ELEMENT_SEPARATOR || currentType == token.GROUP_DATA_ELEMENT_SEPARATOR {
 			e.elements = append(e.elements, current)
 			current = []byte{}
-- 
2.43.0


From bb84dbc69b200828fbb40cb44aea8110ca5718cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 07/96] fix: a value ending in a delimiter loses it on the wire

---
 element/data_element.go | 10 +++++++---
 segment/segment.go      |  9 +++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index d742ea0..3c476c4 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -151,9 +151,13 @@ func (g *elementGroup) MarshalHBCI() ([]byte, error) {
 			elementBytes[i] = marshaled
 		}
 	}
-	marshaled := bytes.Join(elementBytes, []byte(":"))
-	marshaled = bytes.TrimRight(marshaled, ":")
-	return marshaled, nil
+	// Empty elements at the end are omitted. Trimming the joined bytes instead
+	// would eat an escaped delimiter at the end of the last value.
+	last := len(elementBytes)
+	for last > 0 && len(elementBytes[last-1]) == 0 {
+		last--
+	}
+	return bytes.Join(elementBytes[:last], []byte(":")), nil
 }
 
 func (g *elementGroup) UnmarshalHBCI(value []byte) error {
diff --git a/segment/segment.go b/segment/segment.go
index b814b55..2c585ff 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -110,8 +110,13 @@ func (s *segment) MarshalHBCI() ([]byte, error) {
 			elementBytes[i+1] = marshaled
 		}
 	}
-	marshaled := bytes.Join(elementBytes, []byte("+"))
-	marshaled = bytes.TrimRight(marshaled, "+")
+	// Empty elements at the end are omitted. Trimming the joined bytes instead
+	// would eat an escaped delimiter at the end of the last value.
+	last := len(elementBytes)
+	for last > 0 && len(elementBytes[last-1]) == 0 {
+		last--
+	}
+	marshaled := bytes.Join(elementBytes[:last], []byte("+"))
 	marshaled = append(marshaled, '\'')
 	return marshaled, nil
 }
-- 
2.43.0


From c1491e2454b4608337f9a284cb9470f15118e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 08/96] fix: escaped characters in bank texts are not unescaped

---
 element/acknowledgement.go          | 8 ++++----
 element/bank_parameter_data.go      | 2 +-
 element/data_element.go             | 5 +++++
 element/group_data_element_group.go | 8 ++++----
 element/message.go                  | 2 +-
 5 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 107c771..2c628df 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -109,12 +109,12 @@ func (a *AcknowledgementDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed code", a)
 	}
 	acknowledgement.Code = code
-	acknowledgement.ReferenceDataElement = charset.ToUTF8(chunks[1])
-	acknowledgement.Text = charset.ToUTF8(chunks[2])
+	acknowledgement.ReferenceDataElement = decodeText(chunks[1])
+	acknowledgement.Text = decodeText(chunks[2])
 	if len(chunks) > 3 {
 		params := make([]string, len(chunks[3:]))
 		for i, chunk := range chunks[3:] {
-			params[i] = charset.ToUTF8(chunk)
+			params[i] = decodeText(chunk)
 		}
 		acknowledgement.Params = params
 	}
@@ -156,7 +156,7 @@ func (p *ParamsDataElement) UnmarshalHBCI(value []byte) error {
 	}
 	dataElements := make([]DataElement, len(elements))
 	for i, elem := range elements {
-		dataElements[i] = NewAlphaNumeric(charset.ToUTF8(elem), 35)
+		dataElements[i] = NewAlphaNumeric(decodeText(elem), 35)
 	}
 	p.arrayElementGroup = newArrayElementGroup(acknowlegdementParamsGDEG, 10, 10, dataElements)
 	return nil
diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 396292c..49afb8a 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -283,7 +283,7 @@ func (p *PinTanBusinessTransactionParameter) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	p.SegmentID = NewAlphaNumeric(charset.ToUTF8(elements[0]), 6)
+	p.SegmentID = NewAlphaNumeric(decodeText(elements[0]), 6)
 	needsTan := &BooleanDataElement{}
 	err = needsTan.UnmarshalHBCI(elements[1])
 	if err != nil {
diff --git a/element/data_element.go b/element/data_element.go
index 3c476c4..15c36ed 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -234,6 +234,11 @@ func unescape(in string) string {
 	return replacer.Replace(in)
 }
 
+// decodeText decodes a text from its wire format
+func decodeText(value []byte) string {
+	return unescape(charset.ToUTF8(value))
+}
+
 // NewAlphaNumeric returns a new AlphaNumeric DataElement
 func NewAlphaNumeric(val string, maxLength int) *AlphaNumericDataElement {
 	return &AlphaNumericDataElement{&basicDataElement{val, alphaNumericDE, maxLength, false}}
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 951a4dd..225ff06 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -115,7 +115,7 @@ func (b *BankIdentificationDataElement) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	b.CountryCode = countryCode
-	b.BankID = NewAlphaNumeric(charset.ToUTF8(elements[1]), 30)
+	b.BankID = NewAlphaNumeric(decodeText(elements[1]), 30)
 	return nil
 }
 
@@ -164,10 +164,10 @@ func (a *AccountConnectionDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed CountryCode: %q", a, elements[2])
 	}
 	accountConnection := domain.AccountConnection{
-		AccountID:                 charset.ToUTF8(elements[0]),
-		SubAccountCharacteristics: charset.ToUTF8(elements[1]),
+		AccountID:                 decodeText(elements[0]),
+		SubAccountCharacteristics: decodeText(elements[1]),
 		CountryCode:               countryCode,
-		BankID:                    charset.ToUTF8(elements[3]),
+		BankID:                    decodeText(elements[3]),
 	}
 	*a = *NewAccountConnection(accountConnection)
 	return nil
diff --git a/element/message.go b/element/message.go
index 7cce54a..f657759 100644
--- a/element/message.go
+++ b/element/message.go
@@ -50,7 +50,7 @@ func (r *ReferencingMessageDataElement) UnmarshalHBCI(value []byte) error {
 	if len(elements) != 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	dialogID := charset.ToUTF8(elements[0])
+	dialogID := decodeText(elements[0])
 	num, err := strconv.Atoi(charset.ToUTF8(elements[1]))
 	if err != nil {
 		return fmt.Errorf("%T: Malformed message number: %v", r, err)
-- 
2.43.0


From 4ebd1ff2beb4d17e5c1439fa9e5826f2e1345d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 09/96] fix: texts of TAN parameters are neither unescaped nor
 converted from ISO 8859-1

---
 element/tan.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/element/tan.go b/element/tan.go
index 9209400..83ef66c 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 
-	"github.com/mitch000001/go-hbci/charset"
 	"github.com/mitch000001/go-hbci/internal"
 	"gopkg.in/yaml.v3"
 )
@@ -93,7 +92,7 @@ func (t *Tan2StepSubmissionParameterV6) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	t.MoreThanOneObligatoryTanJobAllowed = moreThanOneObligatoryTanJobAllowed
-	t.JobHashMethod = NewCode(charset.ToUTF8(elements[2]), 1, []string{"0", "1", "2"})
+	t.JobHashMethod = NewCode(decodeText(elements[2]), 1, []string{"0", "1", "2"})
 	processParams := &Tan2StepSubmissionProcessParametersV6{}
 	err = processParams.UnmarshalHBCI(bytes.Join(elements[3:], []byte(":")))
 	if err != nil {
@@ -220,19 +219,19 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return err
 	}
 	iter := internal.NewIterator(elements)
-	t.SecurityFunction = NewCode(iter.NextString(), 3, nil)
-	t.TanProcess = NewCode(iter.NextString(), 1, []string{"1", "2"})
-	t.TechnicalIDTanProcess = NewIdentification(iter.NextString())
-	t.ZKATanProcess = NewAlphaNumeric(iter.NextString(), 32)
-	t.ZKATanProcessVersion = NewAlphaNumeric(iter.NextString(), 10)
-	t.TwoStepProcessName = NewAlphaNumeric(iter.NextString(), 30)
+	t.SecurityFunction = NewCode(decodeText(iter.Next()), 3, nil)
+	t.TanProcess = NewCode(decodeText(iter.Next()), 1, []string{"1", "2"})
+	t.TechnicalIDTanProcess = NewIdentification(decodeText(iter.Next()))
+	t.ZKATanProcess = NewAlphaNumeric(decodeText(iter.Next()), 32)
+	t.ZKATanProcessVersion = NewAlphaNumeric(decodeText(iter.Next()), 10)
+	t.TwoStepProcessName = NewAlphaNumeric(decodeText(iter.Next()), 30)
 	var twoStepProcessMaxInputValue NumberDataElement
 	if err := twoStepProcessMaxInputValue.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling TwoStepProcessMaxInputValue: %v", err)
 	}
 	t.TwoStepProcessMaxInputValue = &twoStepProcessMaxInputValue
-	t.TwoStepProcessAllowedFormat = NewCode(iter.NextString(), 1, nil)
-	t.TwoStepProcessReturnValueText = NewAlphaNumeric(iter.NextString(), 30)
+	t.TwoStepProcessAllowedFormat = NewCode(decodeText(iter.Next()), 1, nil)
+	t.TwoStepProcessReturnValueText = NewAlphaNumeric(decodeText(iter.Next()), 30)
 	var TwoStepProcessReturnValueTextMaxLength NumberDataElement
 	if err := TwoStepProcessReturnValueTextMaxLength.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling TwoStepProcessReturnValueTextMaxLength: %v", err)
@@ -243,14 +242,14 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return fmt.Errorf("error unmarshaling MultiTANAllowed: %v", err)
 	}
 	t.MultiTANAllowed = &MultiTANAllowed
-	t.TanTimeAndDialogReference = NewCode(iter.NextString(), 1, nil)
+	t.TanTimeAndDialogReference = NewCode(decodeText(iter.Next()), 1, nil)
 	var JobCancellationAllowed BooleanDataElement
 	if err := JobCancellationAllowed.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling JobCancellationAllowed: %v", err)
 	}
 	t.JobCancellationAllowed = &JobCancellationAllowed
-	t.SMSAccountRequired = NewCode(iter.NextString(), 1, []string{"0", "1", "2"})
-	t.IssuerAccountRequired = NewCode(iter.NextString(), 1, []string{"0", "2"})
+	t.SMSAccountRequired = NewCode(decodeText(iter.Next()), 1, []string{"0", "1", "2"})
+	t.IssuerAccountRequired = NewCode(decodeText(iter.Next()), 1, []string{"0", "2"})
 	var ChallengeClassRequired BooleanDataElement
 	if err := ChallengeClassRequired.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling ChallengeClassRequired: %v", err)
@@ -261,8 +260,8 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return fmt.Errorf("error unmarshaling ChallengeStructured: %v", err)
 	}
 	t.ChallengeStructured = &ChallengeStructured
-	t.InitializationMode = NewCode(iter.NextString(), -1, []string{"00", "01", "02"})
-	t.TanMediumDescriptionRequired = NewCode(iter.NextString(), 1, []string{"0", "1", "2"})
+	t.InitializationMode = NewCode(decodeText(iter.Next()), -1, []string{"00", "01", "02"})
+	t.TanMediumDescriptionRequired = NewCode(decodeText(iter.Next()), 1, []string{"0", "1", "2"})
 	var HHD_UCResponseRequired BooleanDataElement
 	if err := HHD_UCResponseRequired.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling HHD_UCResponseRequired: %v", err)
-- 
2.43.0


From baa44756c92856d02c1cffe12b07000365828758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 10/96] fix: codes outside of their valid set are valid, and
 NewCode reorders the caller's set

---
 element/data_element.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index 15c36ed..4004f04 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -528,10 +528,11 @@ func (b *BooleanDataElement) UnmarshalHBCI(value []byte) error {
 
 // NewCode returns a new CodeDataElement
 func NewCode(val string, maxLength int, validSet []string) *CodeDataElement {
-	sort.Strings(validSet)
+	sortedSet := append([]string(nil), validSet...)
+	sort.Strings(sortedSet)
 	return &CodeDataElement{
 		AlphaNumericDataElement: NewAlphaNumeric(val, maxLength),
-		validSet:                validSet,
+		validSet:                sortedSet,
 	}
 }
 
@@ -549,7 +550,7 @@ func (c *CodeDataElement) Type() DataElementType {
 // IsValid returns true if the value is in the valid set and the underlying
 // AlphaNumericDataElement is valid, false otherwise.
 func (c *CodeDataElement) IsValid() bool {
-	if sort.SearchStrings(c.validSet, c.Val()) >= len(c.validSet) {
+	if i := sort.SearchStrings(c.validSet, c.Val()); i >= len(c.validSet) || c.validSet[i] != c.Val() {
 		return false
 	}
 	return c.AlphaNumericDataElement.IsValid()
-- 
2.43.0


From 8a81667611bcbb83ca0ab9ad34d101a93714155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 11/96] fix: a PIN without TAN can't be decoded

---
 element/pin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/element/pin.go b/element/pin.go
index bd837e4..35662f2 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -64,10 +64,10 @@ func (p *PinTanDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	if len(elements) < 2 {
+	if len(elements) < 1 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	p.DataElement = NewDataElementGroup(securityIdentificationDEG, 3, p)
+	p.DataElement = NewDataElementGroup(pinTanDEG, 2, p)
 	if len(elements) > 0 && len(elements[0]) > 0 {
 		p.PIN = &AlphaNumericDataElement{}
 		err = p.PIN.UnmarshalHBCI(elements[0])
-- 
2.43.0


From 41bc14aed3da2ca578df0de8b54fdeb1fc872389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 12/96] fix: binary values are zero padded or panic when their
 size doesn't match, invalid country codes are ignored

---
 element/data_element.go | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index 4004f04..c6ad7e7 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -461,27 +461,23 @@ func (b *BinaryDataElement) MarshalHBCI() ([]byte, error) {
 
 // UnmarshalHBCI unmarshals value into b
 func (b *BinaryDataElement) UnmarshalHBCI(value []byte) error {
-	buf := bytes.NewBuffer(value)
-	r, _, err := buf.ReadRune()
-	if err != nil {
-		return err
-	}
-	if r != '@' {
+	if len(value) == 0 || value[0] != '@' {
 		return fmt.Errorf("BinaryDataElement: Malformed input")
 	}
-	binSizeStr, err := buf.ReadString('@')
-	if err != nil {
-		return err
+	sizeEnd := bytes.IndexByte(value[1:], '@') + 1
+	if sizeEnd == 0 {
+		return fmt.Errorf("BinaryDataElement: Malformed input")
 	}
-	binSize, err := strconv.Atoi(binSizeStr[:len(binSizeStr)-1])
+	binSize, err := strconv.Atoi(string(value[1:sizeEnd]))
 	if err != nil {
 		return fmt.Errorf("Error while parsing binary size: %T:%v", err, err)
 	}
-	binData := make([]byte, binSize)
-	_, err = buf.Read(binData)
-	if err != nil {
-		return fmt.Errorf("Error while reading binary data: %T:%v", err, err)
+	data := value[sizeEnd+1:]
+	if binSize < 0 || binSize > len(data) {
+		return fmt.Errorf("Error while reading binary data: size is %d, but got %d bytes", binSize, len(data))
 	}
+	binData := make([]byte, binSize)
+	copy(binData, data)
 	*b = BinaryDataElement{&basicDataElement{binData, binaryDE, binSize, false}}
 	return nil
 }
@@ -712,7 +708,7 @@ func (c *CountryCodeDataElement) UnmarshalHBCI(value []byte) error {
 	var d DigitDataElement
 	err := d.UnmarshalHBCI(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	*c = CountryCodeDataElement{&d}
 	return nil
-- 
2.43.0


From 925eb5685ee697c48d041949bb50421131e18a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 13/96] fix: decoded security profiles and encryption
 algorithms are lost

---
 element/encryption.go       | 5 ++---
 element/signature_fints3.go | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/element/encryption.go b/element/encryption.go
index 9b74f98..75df9b0 100644
--- a/element/encryption.go
+++ b/element/encryption.go
@@ -64,15 +64,14 @@ func (e *EncryptionAlgorithmDataElement) GroupDataElements() []DataElement {
 
 // UnmarshalHBCI unmarshals value into the DataElement
 func (e *EncryptionAlgorithmDataElement) UnmarshalHBCI(value []byte) error {
-	e = &EncryptionAlgorithmDataElement{}
 	elements, err := ExtractElements(value)
 	if err != nil {
 		return err
 	}
-	if len(elements) < 7 {
+	if len(elements) < 6 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	e.DataElement = NewDataElementGroup(encryptionAlgorithmDEG, 5, e)
+	e.DataElement = NewDataElementGroup(encryptionAlgorithmDEG, 7, e)
 	e.Usage = &AlphaNumericDataElement{}
 	err = e.Usage.UnmarshalHBCI(elements[0])
 	if err != nil {
diff --git a/element/signature_fints3.go b/element/signature_fints3.go
index 6684328..d925a60 100644
--- a/element/signature_fints3.go
+++ b/element/signature_fints3.go
@@ -22,7 +22,6 @@ type SecurityProfileDataElement struct {
 
 // UnmarshalHBCI unmarshals value into the DataElement
 func (s *SecurityProfileDataElement) UnmarshalHBCI(value []byte) error {
-	s = &SecurityProfileDataElement{}
 	elements, err := ExtractElements(value)
 	if err != nil {
 		return err
@@ -30,7 +29,7 @@ func (s *SecurityProfileDataElement) UnmarshalHBCI(value []byte) error {
 	if len(elements) < 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	s.DataElement = NewDataElementGroup(securityProfileDEG, 5, s)
+	s.DataElement = NewDataElementGroup(securityProfileDEG, 2, s)
 	s.SecurityMethod = &AlphaNumericDataElement{}
 	err = s.SecurityMethod.UnmarshalHBCI(elements[0])
 	if err != nil {
-- 
2.43.0


From 6b528fa6d6d16f97b26ff24bc965b755b57f2295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 14/96] fix: groups without a decoder of their own panic or
 lose what they decode

---
 element/account.go              | 36 +++++++++++++++
 element/bank_parameter_data.go  | 52 ++++++++++++++++++++--
 element/communication_access.go | 16 +++++++
 element/data_element_type.go    |  4 ++
 element/element_extractor.go    | 48 ++++++++++++++++++++
 element/key_management.go       | 18 ++++++++
 element/signature.go            | 13 ++++++
 element/tan.go                  | 13 ++++++
 element/user_parameter_data.go  | 78 +++++++++++++++++++++------------
 9 files changed, 247 insertions(+), 31 deletions(-)

diff --git a/element/account.go b/element/account.go
index ef118f5..5dcf899 100644
--- a/element/account.go
+++ b/element/account.go
@@ -5,7 +5,43 @@ type DisposalEligiblePersonsDataElement struct {
 	DataElement
 }
 
+// UnmarshalHBCI unmarshals value into d
+func (d *DisposalEligiblePersonsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := splitDataElements(value)
+	if err != nil {
+		return err
+	}
+	persons := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		person := &DisposalEligiblePersonDataElement{}
+		if err := person.UnmarshalHBCI(elem); err != nil {
+			return err
+		}
+		persons[i] = person
+	}
+	d.DataElement = newArrayElementGroup(disposalEligiblePersonDEG, 0, len(persons), persons)
+	return nil
+}
+
 // DisposalEligiblePersonDataElement represents a DataElement
 type DisposalEligiblePersonDataElement struct {
 	DataElement
 }
+
+// UnmarshalHBCI unmarshals value into d
+func (d *DisposalEligiblePersonDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	parts := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		part := &AlphaNumericDataElement{}
+		if err := part.UnmarshalHBCI(elem); err != nil {
+			return err
+		}
+		parts[i] = part
+	}
+	d.DataElement = newArrayElementGroup(disposalEligiblePersonDEG, 0, len(parts), parts)
+	return nil
+}
diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 49afb8a..17d9724 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -44,8 +44,23 @@ func (s *SupportedSecurityMethodDataElement) GroupDataElements() []DataElement {
 
 // UnmarshalHBCI unmarshals the value to a SupportedSecurityMethodDataElement
 func (s *SupportedSecurityMethodDataElement) UnmarshalHBCI(value []byte) error {
+	// A bank sends one element per method, of which the first one is kept.
+	methods, err := splitDataElements(value)
+	if err != nil {
+		return err
+	}
+	elements, err := ExtractElements(methods[0])
+	if err != nil {
+		return err
+	}
 	s.DataElement = NewDataElementGroup(supportedSecurityMethodDEG, 2, s)
-	return s.DataElement.UnmarshalHBCI(value)
+	if len(elements) > 1 {
+		elements = [][]byte{elements[0], bytes.Join(elements[1:], []byte(":"))}
+	}
+	return firstError(
+		unmarshalElement(elements, 0, &s.MethodCode),
+		unmarshalElement(elements, 1, &s.Versions),
+	)
 }
 
 // NewSecurityMethodVersions returns a new SecurityMethodVersionsDataElement
@@ -72,9 +87,20 @@ func (s *SecurityMethodVersionsDataElement) Elements() []DataElement {
 
 // UnmarshalHBCI unmarshals the value to a SecurityMethodVersionsDataElement
 func (s *SecurityMethodVersionsDataElement) UnmarshalHBCI(value []byte) error {
-	dataElements := make([]DataElement, 9)
-	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, dataElements)
-	return s.arrayElementGroup.UnmarshalHBCI(value)
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	versions := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		version := &NumberDataElement{}
+		if err := version.UnmarshalHBCI(elem); err != nil {
+			return err
+		}
+		versions[i] = version
+	}
+	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, versions)
+	return nil
 }
 
 // Versions returns the possible versions packaged in a slice of
@@ -186,6 +212,24 @@ type SupportedCompressionMethodsDataElement struct {
 	*arrayElementGroup
 }
 
+// UnmarshalHBCI unmarshals the value to a SupportedCompressionMethodsDataElement
+func (s *SupportedCompressionMethodsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	methods := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		method := &AlphaNumericDataElement{}
+		if err := method.UnmarshalHBCI(elem); err != nil {
+			return err
+		}
+		methods[i] = method
+	}
+	s.arrayElementGroup = newArrayElementGroup(supportedCompressionMethodsDEG, 1, 9, methods)
+	return nil
+}
+
 // A BusinessTransactionParameter defines parameters for a specific business
 // transaction.
 type BusinessTransactionParameter struct {
diff --git a/element/communication_access.go b/element/communication_access.go
index f7c755a..d1ddec6 100644
--- a/element/communication_access.go
+++ b/element/communication_access.go
@@ -45,6 +45,22 @@ type CommunicationParameterDataElement struct {
 	FilterFunctionVersion *NumberDataElement
 }
 
+// UnmarshalHBCI unmarshals value into c
+func (c *CommunicationParameterDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	c.DataElement = NewDataElementGroup(communicationParameterDEG, 5, c)
+	return firstError(
+		unmarshalElement(elements, 0, &c.Protocol),
+		unmarshalElement(elements, 1, &c.Address),
+		unmarshalElement(elements, 2, &c.AddressAddition),
+		unmarshalElement(elements, 3, &c.FilterFunction),
+		unmarshalElement(elements, 4, &c.FilterFunctionVersion),
+	)
+}
+
 // GroupDataElements returns the grouped DataElements
 func (c *CommunicationParameterDataElement) GroupDataElements() []DataElement {
 	return []DataElement{
diff --git a/element/data_element_type.go b/element/data_element_type.go
index 4fb9f88..197ee28 100644
--- a/element/data_element_type.go
+++ b/element/data_element_type.go
@@ -65,6 +65,8 @@ const (
 	tan2StepSubmissionParameterDEG
 	tan2StepSubmissionProcessParameterDEG
 	pinTanSpecificParamDataElementDEG
+	tanChallengeExpiryDateDEG
+	supportedCompressionMethodsDEG
 )
 
 var typeName = map[DataElementType]string{
@@ -118,6 +120,8 @@ var typeName = map[DataElementType]string{
 	tan2StepSubmissionParameterDEG:        "Parameter Zwei-Schritt-TAN-Einreichung",
 	tan2StepSubmissionProcessParameterDEG: "Verfahrensparameter Zwei-Schritt-Verfahren",
 	pinTanSpecificParamDataElementDEG:     "Parameter PIN/TAN-spezifische Informationen",
+	tanChallengeExpiryDateDEG:             "Gültigkeitsdatum und -uhrzeit für Challenge",
+	supportedCompressionMethodsDEG:        "Unterstützte Komprimierungsverfahren",
 }
 
 func (d DataElementType) String() string {
diff --git a/element/element_extractor.go b/element/element_extractor.go
index bffc1a4..3686c1f 100644
--- a/element/element_extractor.go
+++ b/element/element_extractor.go
@@ -12,6 +12,54 @@ func ExtractElements(dataElementGroup []byte) ([][]byte, error) {
 	return extractor.Extract()
 }
 
+// splitDataElements splits consecutive DataElements, which remain encoded.
+func splitDataElements(value []byte) ([][]byte, error) {
+	// The lexer expects every element to be delimited, the last one included.
+	input := append(value[:len(value):len(value)], '+')
+	lexer := token.NewLexer("DataElementSplitter", input)
+	var elements [][]byte
+	start := 0
+	for lexer.HasNext() && start <= len(value) {
+		t := lexer.Next()
+		switch t.Type() {
+		case token.ERROR:
+			return nil, fmt.Errorf("SyntaxError at position %d: %q\n(%q)", t.Pos(), t.Value(), value)
+		case token.DATA_ELEMENT_SEPARATOR:
+			elements = append(elements, input[start:t.Pos()])
+			start = t.Pos() + 1
+		}
+	}
+	return elements, nil
+}
+
+// unmarshalElement decodes the element at index into target. target becomes nil
+// when the element was left out.
+func unmarshalElement[T any, E interface {
+	*T
+	DataElement
+}](elements [][]byte, index int, target *E) error {
+	*target = nil
+	if index >= len(elements) || len(elements[index]) == 0 {
+		return nil
+	}
+	elem := E(new(T))
+	if err := elem.UnmarshalHBCI(elements[index]); err != nil {
+		return err
+	}
+	*target = elem
+	return nil
+}
+
+// firstError returns the first error which is not nil
+func firstError(errs ...error) error {
+	for _, err := range errs {
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // newElementExtractor creates a new GroupExtractor ready to use
 func newElementExtractor(dataElementGroup []byte) *groupExtractor {
 	return &groupExtractor{
diff --git a/element/key_management.go b/element/key_management.go
index 4de68f7..2b4dc3a 100644
--- a/element/key_management.go
+++ b/element/key_management.go
@@ -57,6 +57,24 @@ func (p *PublicKeyDataElement) GroupDataElements() []DataElement {
 	}
 }
 
+// UnmarshalHBCI unmarshals value into p
+func (p *PublicKeyDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	p.DataElement = NewDataElementGroup(publicKeyDEG, 7, p)
+	return firstError(
+		unmarshalElement(elements, 0, &p.Usage),
+		unmarshalElement(elements, 1, &p.OperationMode),
+		unmarshalElement(elements, 2, &p.Cipher),
+		unmarshalElement(elements, 3, &p.Modulus),
+		unmarshalElement(elements, 4, &p.ModulusID),
+		unmarshalElement(elements, 5, &p.Exponent),
+		unmarshalElement(elements, 6, &p.ExponentID),
+	)
+}
+
 // Val returns the public key
 func (p *PublicKeyDataElement) Val() *domain.PublicKey {
 	return &domain.PublicKey{
diff --git a/element/signature.go b/element/signature.go
index b134dda..5b76414 100644
--- a/element/signature.go
+++ b/element/signature.go
@@ -429,3 +429,16 @@ func (c *CertificateDataElement) GroupDataElements() []DataElement {
 		c.Content,
 	}
 }
+
+// UnmarshalHBCI unmarshals value into c
+func (c *CertificateDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	c.DataElement = NewDataElementGroup(certificateDEG, 2, c)
+	return firstError(
+		unmarshalElement(elements, 0, &c.CertificateType),
+		unmarshalElement(elements, 1, &c.Content),
+	)
+}
diff --git a/element/tan.go b/element/tan.go
index 83ef66c..61e4a05 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -27,6 +27,19 @@ func (t *TanChallengeExpiryDate) GroupDataElements() []DataElement {
 	}
 }
 
+// UnmarshalHBCI unmarshals value into t
+func (t *TanChallengeExpiryDate) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	t.DataElement = NewDataElementGroup(tanChallengeExpiryDateDEG, 2, t)
+	return firstError(
+		unmarshalElement(elements, 0, &t.Date),
+		unmarshalElement(elements, 1, &t.Time),
+	)
+}
+
 // Tan2StepSubmissionParameterV6
 //
 // Parameter Zwei-Schritt-TAN-Einreichung, Elementversion #6
diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index d8a89ba..a0c8090 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -35,11 +35,48 @@ type AccountLimitDataElement struct {
 
 // Val returns the limit as domain.AccountLimit
 func (a *AccountLimitDataElement) Val() domain.AccountLimit {
-	return domain.AccountLimit{
-		Kind:   a.Kind.Val(),
-		Amount: a.Amount.Val(),
-		Days:   a.Days.Val(),
+	var limit domain.AccountLimit
+	if a.Kind != nil {
+		limit.Kind = a.Kind.Val()
+	}
+	if a.Amount != nil {
+		limit.Amount = a.Amount.Val()
 	}
+	if a.Days != nil {
+		limit.Days = a.Days.Val()
+	}
+	return limit
+}
+
+// UnmarshalHBCI unmarshals value into a
+func (a *AccountLimitDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	a.DataElement = NewDataElementGroup(accountLimitDEG, 3, a)
+	elements = joinAmount(elements, 1)
+	return firstError(
+		unmarshalElement(elements, 0, &a.Kind),
+		unmarshalElement(elements, 1, &a.Amount),
+		unmarshalElement(elements, 2, &a.Days),
+	)
+}
+
+// joinAmount returns elements with the value and the currency of the amount
+// starting at index as one element. Both are siblings of the other elements of
+// a group, as groups are not delimited from the group they are part of.
+func joinAmount(elements [][]byte, index int) [][]byte {
+	if index+1 >= len(elements) {
+		return elements
+	}
+	var amount []byte
+	if len(elements[index]) != 0 || len(elements[index+1]) != 0 {
+		amount = bytes.Join(elements[index:index+2], []byte(":"))
+	}
+	joined := append([][]byte{}, elements[:index]...)
+	joined = append(joined, amount)
+	return append(joined, elements[index+2:]...)
 }
 
 // GroupDataElements returns the grouped DataElements
@@ -72,7 +109,10 @@ type AllowedBusinessTransactionsDataElement struct {
 
 // UnmarshalHBCI unmarshals value into a
 func (a *AllowedBusinessTransactionsDataElement) UnmarshalHBCI(value []byte) error {
-	elements := bytes.Split(value, []byte("+"))
+	elements, err := splitDataElements(value)
+	if err != nil {
+		return err
+	}
 	transactions := make([]DataElement, len(elements))
 	for i, elem := range elements {
 		tr := &AllowedBusinessTransactionDataElement{}
@@ -150,28 +190,12 @@ func (a *AllowedBusinessTransactionDataElement) UnmarshalHBCI(value []byte) erro
 	if err != nil {
 		return err
 	}
-	if len(elements) > 2 && len(elements[2]) > 0 {
-		a.Kind = &AlphaNumericDataElement{}
-		err = a.Kind.UnmarshalHBCI(elements[2])
-		if err != nil {
-			return err
-		}
-	}
-	if len(elements) > 3 && len(elements[3]) > 0 {
-		a.Amount = &AmountDataElement{}
-		err = a.Amount.UnmarshalHBCI(elements[3])
-		if err != nil {
-			return err
-		}
-	}
-	if len(elements) > 4 && len(elements[4]) > 0 {
-		a.Days = &NumberDataElement{}
-		err = a.Days.UnmarshalHBCI(elements[4])
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	elements = joinAmount(elements, 3)
+	return firstError(
+		unmarshalElement(elements, 2, &a.Kind),
+		unmarshalElement(elements, 3, &a.Amount),
+		unmarshalElement(elements, 4, &a.Days),
+	)
 }
 
 // Val returns the allowed business transaction
-- 
2.43.0


From 60b7da6918c8451443ea615c25b119dfa9b7d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 15/96] fix: decoded bank identifications can't be encoded,
 balances without time and addresses can't be decoded

---
 element/group_data_element_group.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 225ff06..918291d 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -116,6 +116,7 @@ func (b *BankIdentificationDataElement) UnmarshalHBCI(value []byte) error {
 	}
 	b.CountryCode = countryCode
 	b.BankID = NewAlphaNumeric(decodeText(elements[1]), 30)
+	b.DataElement = NewGroupDataElementGroup(bankIdentificationGDEG, 2, b)
 	return nil
 }
 
@@ -380,7 +381,7 @@ func (b *BalanceDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	if len(elements) == 5 {
+	if len(elements) > 4 && len(elements[4]) > 0 {
 		b.TransmissionTime = &TimeDataElement{}
 		err = b.TransmissionTime.UnmarshalHBCI(elements[4])
 		if err != nil {
@@ -442,6 +443,26 @@ func (a *AddressDataElement) Elements() []DataElement {
 	}
 }
 
+// UnmarshalHBCI unmarshals value into a
+func (a *AddressDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	a.DataElement = NewGroupDataElementGroup(addressGDEG, 9, a)
+	return firstError(
+		unmarshalElement(elements, 0, &a.Name1),
+		unmarshalElement(elements, 1, &a.Name2),
+		unmarshalElement(elements, 2, &a.Street),
+		unmarshalElement(elements, 3, &a.PLZ),
+		unmarshalElement(elements, 4, &a.City),
+		unmarshalElement(elements, 5, &a.CountryCode),
+		unmarshalElement(elements, 6, &a.Phone),
+		unmarshalElement(elements, 7, &a.Fax),
+		unmarshalElement(elements, 8, &a.Email),
+	)
+}
+
 // Address returns the address as a domain.Address
 func (a *AddressDataElement) Address() domain.Address {
 	return domain.Address{
-- 
2.43.0


From 0160ab96850b504f75b5e13d3387d9985600e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 16/96] fix: texts which only start like a decimal with leading
 zeros are rejected

---
 token/lexer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/token/lexer.go b/token/lexer.go
index 632bc35..4af3a3b 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -255,8 +255,12 @@ func lexDigit(l *Lexer) LexerStateFn {
 		return lexAlphaNumeric
 	}
 	l.acceptRun(digits)
-	if p := l.peek(); p == ',' {
-		return l.errorf("Malformed float")
+	if l.accept(',') {
+		l.acceptRun(digits)
+		if p := l.peek(); isDelimiter(p) || p == eof {
+			return l.errorf("Malformed float")
+		}
+		return lexAlphaNumeric
 	}
 	if p := l.peek(); isDelimiter(p) {
 		l.emit(DIGIT)
-- 
2.43.0


From 7ed5ffe6cf2b38a1b15390280f0c0006b8e40656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 17/96] fix: reading an element the bank left out panics

---
 element/acknowledgement.go          |  6 ++
 element/bank_parameter_data.go      |  3 +
 element/data_element.go             | 88 +++++++++++++++++++++++++++--
 element/group_data_element_group.go | 21 +++++++
 element/key_management.go           |  3 +
 element/message.go                  |  3 +
 element/signature.go                |  7 ++-
 element/swift.go                    |  3 +
 element/user_parameter_data.go      | 21 ++++---
 9 files changed, 138 insertions(+), 17 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 2c628df..73b4ce8 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -64,6 +64,9 @@ func (a *AcknowledgementDataElement) SetType(acknowledgementType string) {
 
 // Val returns the underlying value of the acknowledgement.
 func (a *AcknowledgementDataElement) Val() domain.Acknowledgement {
+	if a == nil {
+		return domain.Acknowledgement{}
+	}
 	return domain.Acknowledgement{
 		Code:                     a.Code.Val(),
 		ReferenceDataElement:     a.ReferenceDataElement.Val(),
@@ -138,6 +141,9 @@ type ParamsDataElement struct {
 
 // Val returns the underlying value of the DataElement.
 func (p *ParamsDataElement) Val() []string {
+	if p == nil {
+		return nil
+	}
 	params := make([]string, len(p.array))
 	for i, de := range p.array {
 		params[i] = de.Value().(string)
diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 17d9724..98cdba0 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -267,6 +267,9 @@ type PinTanBusinessTransactionParameters struct {
 
 // Val returns the underlying PinTanBusinessTransactions
 func (p *PinTanBusinessTransactionParameters) Val() []domain.PinTanBusinessTransaction {
+	if p == nil {
+		return nil
+	}
 	transactions := make([]domain.PinTanBusinessTransaction, len(p.array))
 	for i, elem := range p.array {
 		transactions[i] = elem.(*PinTanBusinessTransactionParameter).Val()
diff --git a/element/data_element.go b/element/data_element.go
index c6ad7e7..b9060aa 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -250,7 +250,12 @@ type AlphaNumericDataElement struct {
 }
 
 // Val returns the data as string
-func (a *AlphaNumericDataElement) Val() string { return a.val.(string) }
+func (a *AlphaNumericDataElement) Val() string {
+	if a == nil || a.basicDataElement == nil {
+		return ""
+	}
+	return a.val.(string)
+}
 
 // IsValid returns false if a contains '\n' and '\r', true otherwise
 func (a *AlphaNumericDataElement) IsValid() bool {
@@ -290,7 +295,13 @@ type TextDataElement struct {
 }
 
 // Val returns the value of a as a string
-func (a *TextDataElement) Val() string { return a.val.(string) }
+func (a *TextDataElement) Val() string {
+	if a == nil || a.basicDataElement == nil {
+		return ""
+	}
+	return a.val.(string)
+}
+
 func (a *TextDataElement) String() string {
 	return escape(a.basicDataElement.String())
 }
@@ -320,7 +331,12 @@ type DigitDataElement struct {
 }
 
 // Val returns the digit as int
-func (d *DigitDataElement) Val() int { return d.val.(int) }
+func (d *DigitDataElement) Val() int {
+	if d == nil || d.basicDataElement == nil {
+		return 0
+	}
+	return d.val.(int)
+}
 
 func (d *DigitDataElement) String() string {
 	fmtString := fmt.Sprintf("%%0%dd", d.maxLength)
@@ -353,7 +369,12 @@ type NumberDataElement struct {
 }
 
 // Val returns the value of n as int
-func (n *NumberDataElement) Val() int { return n.val.(int) }
+func (n *NumberDataElement) Val() int {
+	if n == nil || n.basicDataElement == nil {
+		return 0
+	}
+	return n.val.(int)
+}
 
 // MarshalHBCI marshals n into the HBCI wire format
 func (n *NumberDataElement) MarshalHBCI() ([]byte, error) {
@@ -381,7 +402,12 @@ type FloatDataElement struct {
 }
 
 // Val returns the value of f as float64
-func (f *FloatDataElement) Val() float64 { return f.val.(float64) }
+func (f *FloatDataElement) Val() float64 {
+	if f == nil || f.basicDataElement == nil {
+		return 0
+	}
+	return f.val.(float64)
+}
 
 func (f *FloatDataElement) String() string {
 	str := strconv.FormatFloat(f.Val(), 'f', -1, 64)
@@ -443,6 +469,9 @@ type BinaryDataElement struct {
 
 // Val returns b as []byte
 func (b *BinaryDataElement) Val() []byte {
+	if b == nil || b.basicDataElement == nil {
+		return nil
+	}
 	return b.Value().([]byte)
 }
 
@@ -494,6 +523,9 @@ type BooleanDataElement struct {
 
 // Val returns the value of b as bool
 func (b *BooleanDataElement) Val() bool {
+	if b == nil || b.basicDataElement == nil {
+		return false
+	}
 	return b.Value().(bool)
 }
 
@@ -538,6 +570,14 @@ type CodeDataElement struct {
 	validSet []string
 }
 
+// Val returns the value of c, or its zero value if the element was left out
+func (c *CodeDataElement) Val() string {
+	if c == nil {
+		return ""
+	}
+	return c.AlphaNumericDataElement.Val()
+}
+
 // Type returns the DataElementType of c
 func (c *CodeDataElement) Type() DataElementType {
 	return codeDE
@@ -571,6 +611,9 @@ type DateDataElement struct {
 
 // Val returns the value of d as time.Time. The time component of it will always be zero.
 func (d *DateDataElement) Val() time.Time {
+	if d == nil || d.basicDataElement == nil {
+		return time.Time{}
+	}
 	return d.Value().(time.Time)
 }
 
@@ -629,6 +672,9 @@ type TimeDataElement struct {
 
 // Val returns the value of t as time.Time.
 func (t *TimeDataElement) Val() time.Time {
+	if t == nil || t.basicDataElement == nil {
+		return time.Time{}
+	}
 	return t.Value().(time.Time)
 }
 
@@ -669,6 +715,14 @@ type IdentificationDataElement struct {
 	*AlphaNumericDataElement
 }
 
+// Val returns the value of i, or its zero value if the element was left out
+func (i *IdentificationDataElement) Val() string {
+	if i == nil {
+		return ""
+	}
+	return i.AlphaNumericDataElement.Val()
+}
+
 // Type returns the DataElementType of i
 func (i *IdentificationDataElement) Type() DataElementType {
 	return identificationDE
@@ -698,6 +752,14 @@ type CountryCodeDataElement struct {
 	*DigitDataElement
 }
 
+// Val returns the value of c, or its zero value if the element was left out
+func (c *CountryCodeDataElement) Val() int {
+	if c == nil {
+		return 0
+	}
+	return c.DigitDataElement.Val()
+}
+
 // Type represents the DataElement Type of c
 func (c *CountryCodeDataElement) Type() DataElementType {
 	return countryCodeDE
@@ -727,6 +789,14 @@ type CurrencyDataElement struct {
 	*AlphaNumericDataElement
 }
 
+// Val returns the value of c, or its zero value if the element was left out
+func (c *CurrencyDataElement) Val() string {
+	if c == nil {
+		return ""
+	}
+	return c.AlphaNumericDataElement.Val()
+}
+
 // IsValid returns true if the currency format matches ISO 4217 alpha-3
 func (c *CurrencyDataElement) IsValid() bool {
 	return c.Length() == 3
@@ -760,6 +830,14 @@ type ValueDataElement struct {
 	*FloatDataElement
 }
 
+// Val returns the value of v, or its zero value if the element was left out
+func (v *ValueDataElement) Val() float64 {
+	if v == nil {
+		return 0
+	}
+	return v.FloatDataElement.Val()
+}
+
 // Type returns the DataElementType of v
 func (v *ValueDataElement) Type() DataElementType {
 	return valueDE
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 918291d..8ab9537 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -38,6 +38,9 @@ func (a *AmountDataElement) Elements() []DataElement {
 
 // Val returns the value of a as a domain.Amount
 func (a *AmountDataElement) Val() domain.Amount {
+	if a == nil {
+		return domain.Amount{}
+	}
 	return domain.Amount{
 		Amount:   a.Amount.Val(),
 		Currency: a.Currency.Val(),
@@ -86,6 +89,9 @@ type BankIdentificationDataElement struct {
 
 // Val returns the value of b as domain.BankID
 func (b *BankIdentificationDataElement) Val() domain.BankID {
+	if b == nil {
+		return domain.BankID{}
+	}
 	return domain.BankID{
 		CountryCode: b.CountryCode.Val(),
 		ID:          b.BankID.Val(),
@@ -176,6 +182,9 @@ func (a *AccountConnectionDataElement) UnmarshalHBCI(value []byte) error {
 
 // Val returns the value of a as domain.AccountConnection
 func (a *AccountConnectionDataElement) Val() domain.AccountConnection {
+	if a == nil {
+		return domain.AccountConnection{}
+	}
 	return domain.AccountConnection{
 		AccountID:                 a.AccountID.Val(),
 		SubAccountCharacteristics: a.SubAccountCharacteristics.Val(),
@@ -268,6 +277,9 @@ func (i *InternationalAccountConnectionDataElement) UnmarshalHBCI(value []byte)
 
 // Val returns the value of i as domain.InternationalAccountConnection
 func (i *InternationalAccountConnectionDataElement) Val() domain.InternationalAccountConnection {
+	if i == nil {
+		return domain.InternationalAccountConnection{}
+	}
 	conn := domain.InternationalAccountConnection{}
 	if i.IBAN != nil {
 		conn.IBAN = i.IBAN.Val()
@@ -331,6 +343,9 @@ func (b *BalanceDataElement) Elements() []DataElement {
 
 // Balance returns the balance as domain.Balance
 func (b *BalanceDataElement) Balance() domain.Balance {
+	if b == nil {
+		return domain.Balance{}
+	}
 	sign := b.DebitCreditIndicator.Val()
 	val := b.Amount.Val()
 	if sign == "D" {
@@ -394,6 +409,9 @@ func (b *BalanceDataElement) UnmarshalHBCI(value []byte) error {
 
 // Date returns the transmission date of the balance
 func (b *BalanceDataElement) Date() time.Time {
+	if b == nil {
+		return time.Time{}
+	}
 	return b.TransmissionDate.Val()
 }
 
@@ -465,6 +483,9 @@ func (a *AddressDataElement) UnmarshalHBCI(value []byte) error {
 
 // Address returns the address as a domain.Address
 func (a *AddressDataElement) Address() domain.Address {
+	if a == nil {
+		return domain.Address{}
+	}
 	return domain.Address{
 		Name1:       a.Name1.Val(),
 		Name2:       a.Name2.Val(),
diff --git a/element/key_management.go b/element/key_management.go
index 2b4dc3a..876f48f 100644
--- a/element/key_management.go
+++ b/element/key_management.go
@@ -77,6 +77,9 @@ func (p *PublicKeyDataElement) UnmarshalHBCI(value []byte) error {
 
 // Val returns the public key
 func (p *PublicKeyDataElement) Val() *domain.PublicKey {
+	if p == nil {
+		return nil
+	}
 	return &domain.PublicKey{
 		Type:     p.Usage.Val(),
 		Modulus:  p.Modulus.Val(),
diff --git a/element/message.go b/element/message.go
index f657759..d92bb50 100644
--- a/element/message.go
+++ b/element/message.go
@@ -29,6 +29,9 @@ type ReferencingMessageDataElement struct {
 
 // Val returns the value of r as domain.ReferencingMessage
 func (r *ReferencingMessageDataElement) Val() domain.MessageReference {
+	if r == nil {
+		return domain.MessageReference{}
+	}
 	return domain.MessageReference{
 		DialogID:      r.DialogID.Val(),
 		MessageNumber: r.MessageNumber.Val(),
diff --git a/element/signature.go b/element/signature.go
index 5b76414..a50e78d 100644
--- a/element/signature.go
+++ b/element/signature.go
@@ -332,10 +332,11 @@ type KeyNameDataElement struct {
 
 // Val returns the KeyName as domain.KeyName
 func (k *KeyNameDataElement) Val() domain.KeyName {
+	if k == nil {
+		return domain.KeyName{}
+	}
 	return domain.KeyName{
-		BankID: domain.BankID{
-			CountryCode: k.Bank.CountryCode.Val(),
-			ID:          k.Bank.BankID.Val()},
+		BankID:     k.Bank.Val(),
 		UserID:     k.UserID.Val(),
 		KeyType:    domain.KeyType(k.KeyType.Val()),
 		KeyNumber:  k.KeyNumber.Val(),
diff --git a/element/swift.go b/element/swift.go
index fc9bc94..45c60f5 100644
--- a/element/swift.go
+++ b/element/swift.go
@@ -24,5 +24,8 @@ func (s *SwiftMT940DataElement) UnmarshalHBCI(value []byte) error {
 
 // Val returns the embodied transactions as *swift.MT940Messages
 func (s *SwiftMT940DataElement) Val() *swift.MT940Messages {
+	if s == nil {
+		return nil
+	}
 	return s.swiftMT940Messages
 }
diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index a0c8090..1a448a3 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -35,17 +35,14 @@ type AccountLimitDataElement struct {
 
 // Val returns the limit as domain.AccountLimit
 func (a *AccountLimitDataElement) Val() domain.AccountLimit {
-	var limit domain.AccountLimit
-	if a.Kind != nil {
-		limit.Kind = a.Kind.Val()
-	}
-	if a.Amount != nil {
-		limit.Amount = a.Amount.Val()
+	if a == nil {
+		return domain.AccountLimit{}
 	}
-	if a.Days != nil {
-		limit.Days = a.Days.Val()
+	return domain.AccountLimit{
+		Kind:   a.Kind.Val(),
+		Amount: a.Amount.Val(),
+		Days:   a.Days.Val(),
 	}
-	return limit
 }
 
 // UnmarshalHBCI unmarshals value into a
@@ -130,6 +127,9 @@ func (a *AllowedBusinessTransactionsDataElement) UnmarshalHBCI(value []byte) err
 
 // AllowedBusinessTransactions returns all allowed business transactions
 func (a *AllowedBusinessTransactionsDataElement) AllowedBusinessTransactions() []domain.BusinessTransaction {
+	if a == nil {
+		return nil
+	}
 	businessTransactions := make([]domain.BusinessTransaction, len(a.array))
 	for i, de := range a.array {
 		businessTransactions[i] = de.(*AllowedBusinessTransactionDataElement).Val()
@@ -200,6 +200,9 @@ func (a *AllowedBusinessTransactionDataElement) UnmarshalHBCI(value []byte) erro
 
 // Val returns the allowed business transaction
 func (a *AllowedBusinessTransactionDataElement) Val() domain.BusinessTransaction {
+	if a == nil {
+		return domain.BusinessTransaction{}
+	}
 	tr := domain.BusinessTransaction{
 		ID:               a.BusinessTransactionID.Val(),
 		NeededSignatures: a.NeededSignatures.Val(),
-- 
2.43.0


From 05a038aa77e9ee7aa5ee8dd4197695fe45d27f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 18/96] fix: parameter elements which are cut short panic,
 syntax errors in others are ignored

---
 element/acknowledgement.go     | 2 +-
 element/bank_parameter_data.go | 3 +++
 element/message.go             | 3 +++
 element/tan.go                 | 3 +++
 4 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 73b4ce8..1cbd272 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -155,7 +155,7 @@ func (p *ParamsDataElement) Val() []string {
 func (p *ParamsDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := ExtractElements(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	if len(elements) > 10 {
 		return fmt.Errorf("malformed params")
diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 98cdba0..8f7ddd2 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -330,6 +330,9 @@ func (p *PinTanBusinessTransactionParameter) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
 	p.SegmentID = NewAlphaNumeric(decodeText(elements[0]), 6)
 	needsTan := &BooleanDataElement{}
 	err = needsTan.UnmarshalHBCI(elements[1])
diff --git a/element/message.go b/element/message.go
index d92bb50..80ea7c0 100644
--- a/element/message.go
+++ b/element/message.go
@@ -50,6 +50,9 @@ func (r *ReferencingMessageDataElement) IsValid() bool {
 // UnmarshalHBCI unmarshals value into r
 func (r *ReferencingMessageDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
 	if len(elements) != 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
diff --git a/element/tan.go b/element/tan.go
index 61e4a05..a68fe8c 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -93,6 +93,9 @@ func (t *Tan2StepSubmissionParameterV6) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(elements) < 3 {
+		return fmt.Errorf("malformed marshaled value")
+	}
 	oneStepProcessAllowed := &BooleanDataElement{}
 	err = oneStepProcessAllowed.UnmarshalHBCI(elements[0])
 	if err != nil {
-- 
2.43.0


From eba35fe72492b4ffb253658be7148af737504bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 19/96] fix: alphanumeric values containing spaces or
 ampersands are invalid

---
 element/data_element.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index b9060aa..a937eb3 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -257,9 +257,9 @@ func (a *AlphaNumericDataElement) Val() string {
 	return a.val.(string)
 }
 
-// IsValid returns false if a contains '\n' and '\r', true otherwise
+// IsValid returns false if a contains '\n' or '\r', true otherwise
 func (a *AlphaNumericDataElement) IsValid() bool {
-	if strings.ContainsAny(a.Val(), "\n & \r") {
+	if strings.ContainsAny(a.Val(), "\n\r") {
 		return false
 	}
 	return a.basicDataElement.IsValid()
-- 
2.43.0


From 391d287ad5478aea5e0b369d92aa90f08469484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 20/96] fix: setting the reference of a segment without one
 panics

---
 element/segment_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element/segment_header.go b/element/segment_header.go
index 565ca58..3c2449b 100644
--- a/element/segment_header.go
+++ b/element/segment_header.go
@@ -42,7 +42,7 @@ func (s *SegmentHeader) SetPosition(pos int) {
 
 // SetReference sets the reference to another segment
 func (s *SegmentHeader) SetReference(ref int) {
-	*s.Ref = *NewNumber(ref, 3)
+	s.Ref = NewNumber(ref, 3)
 }
 
 // ReferencingSegment returns the reference number of the referenced segment
-- 
2.43.0


From 06a6d35ae9c57112232654ffa0a99382cb012bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 21/96] fix: searching a segment panics on messages with
 optional segments left out

---
 message/message.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/message/message.go b/message/message.go
index fc04b12..58af246 100644
--- a/message/message.go
+++ b/message/message.go
@@ -309,6 +309,9 @@ func (b *BasicMessage) MessageEnd() *segment.MessageEndSegment {
 // found. The first matching segment will be returned.
 func (b *BasicMessage) FindSegment(segmentID string) segment.Segment {
 	for _, segment := range b.HBCIMessage.HBCISegments() {
+		if reflect.ValueOf(segment).IsNil() {
+			continue
+		}
 		if segment.Header().ID.Val() == segmentID {
 			return segment
 		}
@@ -320,6 +323,9 @@ func (b *BasicMessage) FindSegment(segmentID string) segment.Segment {
 func (b *BasicMessage) FindSegments(segmentID string) []segment.Segment {
 	var segments []segment.Segment
 	for _, segment := range b.HBCIMessage.HBCISegments() {
+		if reflect.ValueOf(segment).IsNil() {
+			continue
+		}
 		if segment.Header().ID.Val() == segmentID {
 			segments = append(segments, segment)
 		}
@@ -331,6 +337,9 @@ func (b *BasicMessage) FindSegments(segmentID string) []segment.Segment {
 // nil if nothing found
 func (b *BasicMessage) FindMarshaledSegment(segmentID string) []byte {
 	for _, segment := range b.HBCIMessage.HBCISegments() {
+		if reflect.ValueOf(segment).IsNil() {
+			continue
+		}
 		if segment.Header().ID.Val() == segmentID {
 			return []byte(segment.String())
 		}
@@ -343,6 +352,9 @@ func (b *BasicMessage) FindMarshaledSegment(segmentID string) []byte {
 func (b *BasicMessage) FindMarshaledSegments(segmentID string) [][]byte {
 	var segments [][]byte
 	for _, segment := range b.HBCIMessage.HBCISegments() {
+		if reflect.ValueOf(segment).IsNil() {
+			continue
+		}
 		if segment.Header().ID.Val() == segmentID {
 			segments = append(segments, []byte(segment.String()))
 		}
-- 
2.43.0


From 29e0a88a86c8dd8dfa03b2cd96525ddf955e26e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 22/96] fix: a message changed after it was marshaled is
 marshaled with its old content

---
 message/message.go | 54 +++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 29 deletions(-)

diff --git a/message/message.go b/message/message.go
index 58af246..7cdd5a1 100644
--- a/message/message.go
+++ b/message/message.go
@@ -103,8 +103,7 @@ type BasicMessage struct {
 	SignatureBegin *segment.SignatureHeaderSegment
 	SignatureEnd   *segment.SignatureEndSegment
 	HBCIMessage
-	hbciVersion      segment.HBCIVersion
-	marshaledContent []byte
+	hbciVersion segment.HBCIVersion
 }
 
 // SetSegmentPositions sets the message number on every segment within the message
@@ -189,44 +188,41 @@ func (b *BasicMessage) MarshalHBCI() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if len(b.marshaledContent) == 0 {
-		var buffer bytes.Buffer
-		headerBytes, err := b.Header.MarshalHBCI()
+	var buffer bytes.Buffer
+	headerBytes, err := b.Header.MarshalHBCI()
+	if err != nil {
+		return nil, err
+	}
+	buffer.Write(headerBytes)
+	if b.SignatureBegin != nil {
+		sigBytes, err := b.SignatureBegin.MarshalHBCI()
 		if err != nil {
 			return nil, err
 		}
-		buffer.Write(headerBytes)
-		if b.SignatureBegin != nil {
-			sigBytes, err := b.SignatureBegin.MarshalHBCI()
-			if err != nil {
-				return nil, err
-			}
-			buffer.Write(sigBytes)
-		}
-		for _, segment := range b.HBCIMessage.HBCISegments() {
-			if !reflect.ValueOf(segment).IsNil() {
-				segBytes, err := segment.MarshalHBCI()
-				if err != nil {
-					return nil, err
-				}
-				buffer.Write(segBytes)
-			}
-		}
-		if b.SignatureEnd != nil {
-			sigEndBytes, err := b.SignatureEnd.MarshalHBCI()
+		buffer.Write(sigBytes)
+	}
+	for _, segment := range b.HBCIMessage.HBCISegments() {
+		if !reflect.ValueOf(segment).IsNil() {
+			segBytes, err := segment.MarshalHBCI()
 			if err != nil {
 				return nil, err
 			}
-			buffer.Write(sigEndBytes)
+			buffer.Write(segBytes)
 		}
-		endBytes, err := b.End.MarshalHBCI()
+	}
+	if b.SignatureEnd != nil {
+		sigEndBytes, err := b.SignatureEnd.MarshalHBCI()
 		if err != nil {
 			return nil, err
 		}
-		buffer.Write(endBytes)
-		b.marshaledContent = buffer.Bytes()
+		buffer.Write(sigEndBytes)
 	}
-	return b.marshaledContent, nil
+	endBytes, err := b.End.MarshalHBCI()
+	if err != nil {
+		return nil, err
+	}
+	buffer.Write(endBytes)
+	return buffer.Bytes(), nil
 }
 
 // Sign signs b using the SignatureProvider
-- 
2.43.0


From f27779a8db388e45de7fc5ba55fcc53e17768eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 23/96] fix: segments without content panic, segment
 acknowledgements don't know their message

---
 message/decryption.go  | 6 +++++-
 message/unmarshaler.go | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/message/decryption.go b/message/decryption.go
index d69f7fb..2362128 100644
--- a/message/decryption.go
+++ b/message/decryption.go
@@ -23,9 +23,10 @@ func NewDecryptedMessage(header *segment.MessageHeaderSegment, end *segment.Mess
 	}
 	for _, seg := range unmarshaler.SegmentsByID("HIRMS") {
 		if segmentAcknowledgement, ok := seg.(*segment.SegmentAcknowledgement); ok {
+			segmentAcknowledgement.SetReferencingMessage(header.ReferencingMessage())
 			acknowledgements = append(acknowledgements, segmentAcknowledgement.Acknowledgements()...)
 		} else {
-			panic(fmt.Errorf("Error while unmarshaling segments"))
+			return nil, fmt.Errorf("Malformed segment found with ID %q", "HIRMS")
 		}
 	}
 	version, ok := segment.SupportedHBCIVersions[header.HBCIVersion.Val()]
@@ -94,6 +95,9 @@ func (d *decryptedMessage) SegmentPosition(segmentID string) int {
 	if err != nil {
 		return -1
 	}
+	if len(elements) == 0 {
+		return -1
+	}
 	header := &element.SegmentHeader{}
 	err = header.UnmarshalHBCI(elements[0])
 	if err != nil {
diff --git a/message/unmarshaler.go b/message/unmarshaler.go
index 82d531f..8f2ca03 100644
--- a/message/unmarshaler.go
+++ b/message/unmarshaler.go
@@ -132,6 +132,9 @@ func extractVersionedSegmentIdentifier(segmentBytes []byte) (segment.VersionedSe
 	if err != nil {
 		return id, err
 	}
+	if len(elements) == 0 {
+		return id, fmt.Errorf("malformed segment: %q", segmentBytes)
+	}
 	header := &element.SegmentHeader{}
 	err = header.UnmarshalHBCI(elements[0])
 	if err != nil {
@@ -146,6 +149,9 @@ func extractSegmentHeader(segmentBytes []byte) (*element.SegmentHeader, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(elements) == 0 {
+		return nil, fmt.Errorf("malformed segment: %q", segmentBytes)
+	}
 	header := &element.SegmentHeader{}
 	err = header.UnmarshalHBCI(elements[0])
 	if err != nil {
-- 
2.43.0


From 9d514a6ef263127f4a4b93ce9f4646abba1355ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 24/96] fix: the signature covers a debug rendering of the
 message instead of the bytes sent

---
 message/message.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/message/message.go b/message/message.go
index 7cdd5a1..ec7e9b2 100644
--- a/message/message.go
+++ b/message/message.go
@@ -236,10 +236,18 @@ func (b *BasicMessage) Sign(provider SignatureProvider) (*BasicSignedMessage, er
 	b.SignatureEnd = b.hbciVersion.SignatureEnd()
 	b.SetSegmentPositions()
 	var buffer bytes.Buffer
-	buffer.WriteString(b.SignatureBegin.String())
+	sigBytes, err := b.SignatureBegin.MarshalHBCI()
+	if err != nil {
+		return nil, err
+	}
+	buffer.Write(sigBytes)
 	for _, segment := range b.HBCIMessage.HBCISegments() {
 		if !reflect.ValueOf(segment).IsNil() {
-			buffer.WriteString(segment.String())
+			segBytes, err := segment.MarshalHBCI()
+			if err != nil {
+				return nil, err
+			}
+			buffer.Write(segBytes)
 		}
 	}
 	sig, err := provider.Sign(buffer.Bytes())
-- 
2.43.0


From a8f8416aa90b0d96da4c80f815ed7342ba444ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 25/96] fix: a synchronisation continues the numbers of the
 previous dialog and mixes old and initial client system IDs

---
 dialog/dialog.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 241b276..1b3b371 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -155,6 +155,8 @@ func (d *dialog) SyncUserParameterData() error {
 }
 
 func (d *dialog) SyncClientSystemID() (string, error) {
+	d.dialogID = initialDialogID
+	d.messageCount = 0
 	syncMessage := message.NewSynchronisationMessage(d.hbciVersion)
 	syncMessage.Identification = segment.NewIdentificationSegment(d.BankID, d.clientID, initialClientSystemID, true)
 	syncMessage.ProcessingPreparation = segment.NewProcessingPreparationSegmentV3(
@@ -163,11 +165,13 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 	syncMessage.TanRequest = d.hbciVersion.TanProcess4Request(segment.IdentificationID)
 	syncMessage.Sync = d.hbciVersion.SynchronisationRequest(segment.SyncModeAquireClientID)
 	syncMessage.BasicMessage = d.newBasicMessage(syncMessage)
+	d.signatureProvider.SetClientSystemID(initialClientSystemID)
+	d.cryptoProvider.SetClientSystemID(initialClientSystemID)
+	defer func() { d.SetClientSystemID(d.ClientSystemID) }()
 	signedSyncMessage, err := syncMessage.Sign(d.signatureProvider)
 	if err != nil {
 		return "", err
 	}
-	d.cryptoProvider.SetClientSystemID(initialClientSystemID)
 	encryptedSyncMessage, err := signedSyncMessage.Encrypt(d.cryptoProvider)
 	if err != nil {
 		return "", err
-- 
2.43.0


From b65edb12628cc419556dca5929ba3fae0c1f9994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 26/96] fix: a dialog stays open when the bank's answer to its
 initialization can't be processed

---
 dialog/dialog.go | 61 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 1b3b371..65b9110 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -203,6 +203,12 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 	if len(errors) > 0 {
 		return "", fmt.Errorf("institute returned errors:\n%s", strings.Join(errors, "\n"))
 	}
+	ended := false
+	defer func() {
+		if !ended {
+			logErr(d.end())
+		}
+	}()
 	if err := d.updateSecurityFunctionIfNeeded(decryptedMessage); err != nil {
 		return "", fmt.Errorf("error updating security function: %w", err)
 	}
@@ -225,6 +231,7 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 		return "", err
 	}
 
+	ended = true
 	err = d.end()
 	if err != nil {
 		return "", err
@@ -262,7 +269,7 @@ func (d *dialog) SendAnonymousMessage(clientMessage message.HBCIMessage) (messag
 	return bankMessage, nil
 }
 
-func (d *dialog) anonymousInit() error {
+func (d *dialog) anonymousInit() (err error) {
 	d.dialogID = initialDialogID
 	d.messageCount = 0
 	initMessage := message.NewDialogInitializationClientMessage(d.hbciVersion)
@@ -282,16 +289,6 @@ func (d *dialog) anonymousInit() error {
 	}
 	d.dialogID = messageHeader.DialogID.Val()
 
-	err = d.parseBankParameterData(bankMessage)
-	if err != nil {
-		return err
-	}
-
-	err = d.parseUserParameterData(bankMessage)
-	if err != nil {
-		return err
-	}
-
 	bankInfoMessage := bankMessage.FindSegment(segment.BankAnnouncementID)
 	if bankInfoMessage != nil {
 		bankInfoSegment := bankInfoMessage.(*segment.BankAnnouncementSegment)
@@ -311,6 +308,21 @@ func (d *dialog) anonymousInit() error {
 	if len(errors) > 0 {
 		return fmt.Errorf("DialogEnd: Institute returned errors:\n%s", strings.Join(errors, "\n"))
 	}
+	defer func() {
+		if err != nil {
+			logErr(d.anonymousEnd())
+		}
+	}()
+
+	err = d.parseBankParameterData(bankMessage)
+	if err != nil {
+		return err
+	}
+
+	err = d.parseUserParameterData(bankMessage)
+	if err != nil {
+		return err
+	}
 	return nil
 }
 
@@ -338,7 +350,7 @@ func (d *dialog) anonymousEnd() error {
 	return nil
 }
 
-func (d *dialog) init() error {
+func (d *dialog) init() (err error) {
 	if d.ClientSystemID == initialClientSystemID {
 		id, err := d.SyncClientSystemID()
 		if err != nil {
@@ -374,16 +386,6 @@ func (d *dialog) init() error {
 	}
 	d.dialogID = messageHeader.DialogID.Val()
 
-	err = d.parseBankParameterData(decryptedMessage)
-	if err != nil {
-		return err
-	}
-
-	err = d.parseUserParameterData(decryptedMessage)
-	if err != nil {
-		return err
-	}
-
 	bankInfoMessage := decryptedMessage.FindSegment(segment.BankAnnouncementID)
 	if bankInfoMessage != nil {
 		bankInfoSegment := bankInfoMessage.(*segment.BankAnnouncementSegment)
@@ -406,6 +408,21 @@ func (d *dialog) init() error {
 	if len(errors) > 0 {
 		return fmt.Errorf("DialogEnd: Institute returned errors:\n%s", strings.Join(errors, "\n"))
 	}
+	defer func() {
+		if err != nil {
+			logErr(d.end())
+		}
+	}()
+
+	err = d.parseBankParameterData(decryptedMessage)
+	if err != nil {
+		return err
+	}
+
+	err = d.parseUserParameterData(decryptedMessage)
+	if err != nil {
+		return err
+	}
 
 	if err := d.updateSecurityFunctionIfNeeded(decryptedMessage); err != nil {
 		return fmt.Errorf("error updating security function: %w", err)
-- 
2.43.0


From de87ccfc89c0aa5c5cf300601a4fa750cc052a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:07 +0000
Subject: [PATCH 27/96] fix: decoding a segment without elements panics

---
 segment/element_extractor.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/segment/element_extractor.go b/segment/element_extractor.go
index 2073e1d..08ec192 100644
--- a/segment/element_extractor.go
+++ b/segment/element_extractor.go
@@ -11,7 +11,14 @@ func ExtractElements(segment []byte) ([][]byte, error) {
 	extractor := &elementExtractor{
 		rawSegment: segment,
 	}
-	return extractor.Extract()
+	elements, err := extractor.Extract()
+	if err != nil {
+		return nil, err
+	}
+	if len(elements) == 0 {
+		return nil, fmt.Errorf("malformed segment: no elements in %q", segment)
+	}
+	return elements, nil
 }
 
 type elementExtractor struct {
-- 
2.43.0


From e191f30408d2520e64ae6de1c4fb6d4a04f1e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 28/96] fix: accounts are duplicated each time the bank sends
 the user parameter data

---
 dialog/dialog.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 65b9110..b6590e3 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -593,10 +593,15 @@ func (d *dialog) parseUserParameterData(bankMessage message.BankMessage) error {
 	}
 
 	accountData := bankMessage.FindSegments(segment.AccountInformationID)
+	if len(accountData) == 0 {
+		return nil
+	}
+	accounts := make([]domain.AccountInformation, 0, len(accountData))
 	for _, acc := range accountData {
 		infoSegment := acc.(segment.AccountInformation)
-		d.Accounts = append(d.Accounts, infoSegment.Account())
+		accounts = append(accounts, infoSegment.Account())
 	}
+	d.Accounts = accounts
 	return nil
 }
 
-- 
2.43.0


From 945021a9c9acfa570ebb45df5ba3baced82538f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 29/96] fix: changing the PIN resets the security function the
 bank asked for

---
 dialog/pin_tan_dialog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/pin_tan_dialog.go b/dialog/pin_tan_dialog.go
index 6bb3025..617f9a2 100644
--- a/dialog/pin_tan_dialog.go
+++ b/dialog/pin_tan_dialog.go
@@ -65,4 +65,7 @@ func (d *PinTanDialog) SetPin(pin string) {
 	d.signatureProvider = message.NewPinTanSignatureProvider(pinKey, d.ClientSystemID)
 	pinKey = domain.NewPinKey(pin, domain.NewPinTanKeyName(d.BankID, d.UserID, domain.KeyTypeEncryption))
 	d.cryptoProvider = message.NewPinTanCryptoProvider(pinKey, d.ClientSystemID)
+	if d.securityFn != "" {
+		d.SetSecurityFunction(d.securityFn)
+	}
 }
-- 
2.43.0


From dc8655ee187a74916d58d8cbe7d4bff33fd1db89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 30/96] fix: the security function is chosen at random from
 those allowed, even if the current one is

---
 dialog/dialog.go | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index b6590e3..d0b211d 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -474,6 +474,12 @@ func (d *dialog) newBasicMessage(hbciMessage message.HBCIMessage) *message.Basic
 	return clientMessage
 }
 
+// A securityFunction is a security function the bank and the client support
+type securityFunction struct {
+	code string
+	name string
+}
+
 func (d *dialog) updateSecurityFunctionIfNeeded(message message.BankMessage) error {
 	if !d.hasSupportedSecurityAcknowledgement(message) {
 		return nil
@@ -482,22 +488,17 @@ func (d *dialog) updateSecurityFunctionIfNeeded(message message.BankMessage) err
 	if !ok {
 		return fmt.Errorf("no supported security function implemented")
 	}
-	oldSecurityFn := d.securityFn
-	newSecurityFn := ""
-	newSecurityFnName := ""
 	// TODO: proper handling of each case, see FINTS3.0 docu -> Ask user which to use
-	for fn, name := range supportedSecurityFns {
-		newSecurityFn = fn
-		newSecurityFnName = name
-		break
-	}
-	if oldSecurityFn != newSecurityFn {
-		internal.Info.Printf(
-			"New supported security function found. Setting new security function %q (%s).", newSecurityFnName, newSecurityFn,
-		)
-		d.SetSecurityFunction(newSecurityFn)
-
+	for _, fn := range supportedSecurityFns {
+		if fn.code == d.securityFn {
+			return nil
+		}
 	}
+	newSecurityFn := supportedSecurityFns[0]
+	internal.Info.Printf(
+		"New supported security function found. Setting new security function %q (%s).", newSecurityFn.name, newSecurityFn.code,
+	)
+	d.SetSecurityFunction(newSecurityFn.code)
 	return nil
 }
 
@@ -514,7 +515,7 @@ func (d *dialog) hasSupportedSecurityAcknowledgement(message message.BankMessage
 	return false
 }
 
-func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankMessage) (map[string]string, bool) {
+func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankMessage) ([]securityFunction, bool) {
 	acknowledgements := message.Acknowledgements()
 	var supportedSecurityFns []string
 	for _, ack := range acknowledgements {
@@ -526,20 +527,24 @@ func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankM
 	if len(supportedSecurityFns) == 0 {
 		return nil, false
 	}
-	securityFunctions := map[string]string{}
+	var securityFunctions []securityFunction
 	rawSegment := message.FindSegment(segment.TanBankParameterID)
 	if rawSegment == nil {
 		return nil, false
 	}
 	availableSecurityFns := map[string]*element.Tan2StepSubmissionProcessParameterV6{}
-	for _, pp := range rawSegment.(*segment.TanBankParameterV6).Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements() {
+	submissionParameter := rawSegment.(*segment.TanBankParameterV6).Tan2StepSubmissionParameter
+	if submissionParameter == nil {
+		return nil, false
+	}
+	for _, pp := range submissionParameter.ProcessParameters.GroupDataElements() {
 		tan2StepPP := pp.(*element.Tan2StepSubmissionProcessParameterV6)
 		fn := tan2StepPP.SecurityFunction.Val()
 		availableSecurityFns[fn] = tan2StepPP
 	}
 	for _, sf := range supportedSecurityFns {
 		if pp, ok := availableSecurityFns[sf]; ok {
-			securityFunctions[sf] = pp.TwoStepProcessName.Val()
+			securityFunctions = append(securityFunctions, securityFunction{sf, pp.TwoStepProcessName.Val()})
 		}
 	}
 	if len(securityFunctions) == 0 {
-- 
2.43.0


From 2e9c1fc4fe026357a4f09c8b853cf5cea048b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 31/96] fix: PIN/TAN parameters without details panic

---
 segment/pin_bpd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segment/pin_bpd.go b/segment/pin_bpd.go
index 851dc9a..10db545 100644
--- a/segment/pin_bpd.go
+++ b/segment/pin_bpd.go
@@ -46,6 +46,9 @@ func (t *PinTanBankParameterV1) elements() []element.DataElement {
 
 func (t *PinTanBankParameterV1) PinTanBusinessTransactions() []domain.PinTanBusinessTransaction {
 	var transactions []domain.PinTanBusinessTransaction
+	if t.PinTanSpecificParams == nil {
+		return transactions
+	}
 	for _, transactionDe := range t.PinTanSpecificParams.JobSpecificPinTanInformation.GroupDataElements() {
 		transactions = append(transactions, transactionDe.(*element.PinTanBusinessTransactionParameter).Val())
 	}
-- 
2.43.0


From 64319a6aade8924d8f64ea5746ba00392433cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 32/96] fix: user name and extensions of user parameter data
 version 3 are lost

---
 segment/user_parameter_data.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/segment/user_parameter_data.go b/segment/user_parameter_data.go
index 1655369..2256370 100644
--- a/segment/user_parameter_data.go
+++ b/segment/user_parameter_data.go
@@ -93,9 +93,11 @@ func (c *CommonUserParameterDataV3) elements() []element.DataElement {
 
 func (c *CommonUserParameterDataV3) UserParameterData() domain.UserParameterData {
 	return domain.UserParameterData{
-		UserID:  c.UserID.Val(),
-		Version: c.UPDVersion.Val(),
-		Usage:   c.UPDUsage.Val(),
+		UserID:    c.UserID.Val(),
+		Version:   c.UPDVersion.Val(),
+		Usage:     c.UPDUsage.Val(),
+		UserName:  c.UserName.Val(),
+		Additions: c.CommonExtensions.Val(),
 	}
 }
 
-- 
2.43.0


From 701e0e03f605241dc1865bdde183a6bc80febd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 33/96] fix: warnings in anonymous dialogs are printed to
 standard output

---
 dialog/dialog.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index d0b211d..6ff0d6f 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -257,7 +257,7 @@ func (d *dialog) SendAnonymousMessage(clientMessage message.HBCIMessage) (messag
 	acknowledgements := bankMessage.Acknowledgements()
 	for _, ack := range acknowledgements {
 		if ack.IsWarning() {
-			fmt.Printf("%v\n", ack)
+			internal.Info.Printf("%v\n", ack)
 		}
 		if ack.IsError() {
 			errors = append(errors, ack.String())
@@ -299,7 +299,7 @@ func (d *dialog) anonymousInit() (err error) {
 	acknowledgements := bankMessage.Acknowledgements()
 	for _, ack := range acknowledgements {
 		if ack.IsWarning() {
-			fmt.Printf("%v\n", ack)
+			internal.Info.Printf("%v\n", ack)
 		}
 		if ack.IsError() {
 			errors = append(errors, ack.String())
-- 
2.43.0


From 24c948fedc72afdc7f2e34ec0eca8975bfba785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 34/96] fix: a synchronisation answer without client system ID
 is accepted

---
 dialog/dialog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 6ff0d6f..766e785 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -216,6 +216,9 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 	syncResponse := decryptedMessage.FindSegment("HISYN")
 	if syncResponse != nil {
 		syncSegment := syncResponse.(segment.SynchronisationResponse)
+		if syncSegment.ClientSystemID() == "" {
+			return "", fmt.Errorf("malformed message: missing client system ID in SynchronisationResponse")
+		}
 		d.SetClientSystemID(syncSegment.ClientSystemID())
 	} else {
 		return "", fmt.Errorf("malformed message: missing unmarshaler for SynchronisationResponse")
-- 
2.43.0


From 3ebb58adcd497aeeb60ca77d2c0c6ebf4b564e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 35/96] fix: status protocol requests are built with the other
 version than the bank supports

---
 segment/status_protocol.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index f3ac229..d90e198 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -14,9 +14,9 @@ func StatusProtocolRequestBuilder(versions []int) (func(from, to time.Time, maxE
 	for _, version := range versions {
 		switch version {
 		case 4:
-			return NewStatusProtocolRequestV3, nil
-		case 3:
 			return NewStatusProtocolRequestV4, nil
+		case 3:
+			return NewStatusProtocolRequestV3, nil
 		default:
 			continue
 		}
-- 
2.43.0


From deabd4e2eeb56813992c29e332ac13d7eee30f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 36/96] fix: SEPA account transaction requests are never
 supported

---
 segment/account_transaction.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/segment/account_transaction.go b/segment/account_transaction.go
index 40f7eba..a90c5f4 100644
--- a/segment/account_transaction.go
+++ b/segment/account_transaction.go
@@ -29,9 +29,6 @@ func AccountTransactionRequestBuilder(versions []int) (func(account domain.Accou
 func SepaAccountTransactionRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
-		if version > 6 {
-			continue
-		}
 		switch version {
 		case 7:
 			return NewAccountTransactionRequestSegmentV7, nil
-- 
2.43.0


From de1610aa089f4bf2b02d6791a742b8a05231f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 37/96] fix: status protocol requests are never supported

---
 segment/hbci_version.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segment/hbci_version.go b/segment/hbci_version.go
index e70a580..53a41f7 100644
--- a/segment/hbci_version.go
+++ b/segment/hbci_version.go
@@ -104,7 +104,7 @@ func (b *builder) SepaAccountTransactionRequest(account domain.InternationalAcco
 	return request(account, allAccounts), nil
 }
 func (b *builder) StatusProtocolRequest(from, to time.Time, maxEntries int, continuationReference string) (StatusProtocolRequest, error) {
-	versions, ok := b.supportedSegments["HIPRO"]
+	versions, ok := b.supportedSegments["HIPROS"]
 	if !ok {
 		return nil, fmt.Errorf("Segment %s not supported", "HKPRO")
 	}
-- 
2.43.0


From 044303ea7b36c28cf803ebadb15f7fb7226b5526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 38/96] fix: status entries are transmitted at a random time

---
 segment/segment.go         | 7 +++++++
 segment/status_protocol.go | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 2c585ff..fcaf91e 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"time"
 
 	"github.com/mitch000001/go-hbci/element"
 )
@@ -147,3 +148,9 @@ func (s *segment) SetPosition(positionFn func() int) {
 func (s *segment) SetReference(ref int) {
 	s.header.SetReference(ref)
 }
+
+// addTimeOfDay returns the date with the time of day from clock
+func addTimeOfDay(date time.Time, clock time.Time) time.Time {
+	hour, min, sec := clock.Clock()
+	return time.Date(date.Year(), date.Month(), date.Day(), hour, min, sec, 0, date.Location())
+}
diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index d90e198..25b7a79 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -144,7 +144,7 @@ func (s *StatusProtocolResponseSegmentV3) Status() domain.StatusAcknowledgement
 	}
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(time.Since(s.Time.Val())),
+		TransmittedAt:   addTimeOfDay(s.Date.Val(), s.Time.Val()),
 	}
 	return status
 }
@@ -184,7 +184,7 @@ func (s *StatusProtocolResponseSegmentV4) Status() domain.StatusAcknowledgement
 	}
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(time.Since(s.Time.Val())),
+		TransmittedAt:   addTimeOfDay(s.Date.Val(), s.Time.Val()),
 	}
 	return status
 }
-- 
2.43.0


From 80819278361499dba0ceaae23b3a6deeadb4b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 39/96] fix: the booking time of balances moves the booking
 date into the previous year or panics

---
 segment/account_balance.go | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/segment/account_balance.go b/segment/account_balance.go
index 7ed9ae3..01f484d 100644
--- a/segment/account_balance.go
+++ b/segment/account_balance.go
@@ -3,7 +3,6 @@ package segment
 import (
 	"fmt"
 	"sort"
-	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
 	"github.com/mitch000001/go-hbci/element"
@@ -249,9 +248,8 @@ func (a *AccountBalanceResponseSegmentV5) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = addTimeOfDay(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -325,9 +323,8 @@ func (a *AccountBalanceResponseSegmentV6) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = addTimeOfDay(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -401,9 +398,8 @@ func (a *AccountBalanceResponseSegmentV7) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = addTimeOfDay(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -439,9 +435,8 @@ func (a *AccountBalanceResponseSegmentV7) SepaAccountBalance() (domain.SepaAccou
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = addTimeOfDay(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -513,9 +508,8 @@ func (a *AccountBalanceResponseSegmentV8) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = addTimeOfDay(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -551,9 +545,8 @@ func (a *AccountBalanceResponseSegmentV8) SepaAccountBalance() (domain.SepaAccou
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = addTimeOfDay(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
-- 
2.43.0


From 9f669a1e5d0e7bb816d462e8b2428b2b8e2ef96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 40/96] fix: merging MT940 messages panics without booked
 transactions and depends on the clock

---
 client/client.go   |  2 +-
 swift/unmarshal.go | 51 ++++++++--------------------------------------
 2 files changed, 10 insertions(+), 43 deletions(-)

diff --git a/client/client.go b/client/client.go
index 658935a..27c49b6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -211,7 +211,7 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 	if err != nil {
 		return nil, err
 	}
-	return swift.MergeMT940Messages(msg, tx), err
+	return swift.MergeMT940Messages(tx, msg), nil
 }
 
 // AccountInformation will print all information attached to the provided
diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index e81efd8..f712242 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -2,69 +2,36 @@ package swift
 
 import (
 	"fmt"
-	"sort"
 	"strings"
-	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
 )
 
 func NewMT940Messages(data []byte) *MT940Messages {
 	return &MT940Messages{
-		Data:      data,
-		timestamp: time.Now().UnixNano(),
+		Data: data,
 	}
 }
 
 type MT940Messages struct {
-	Data      []byte
-	timestamp int64
+	Data []byte
 }
 
+// MergeMT940Messages joins the messages in the provided order. Messages which
+// are nil are left out.
 func MergeMT940Messages(messages ...*MT940Messages) *MT940Messages {
-	sortedMessages := sortedByTimestamp(messages)
-	sort.Sort(sortedMessages)
 	merged := &MT940Messages{
-		Data:      []byte{},
-		timestamp: time.Now().UnixNano(),
+		Data: []byte{},
 	}
-	for _, msg := range sortedMessages {
+	for _, msg := range messages {
+		if msg == nil {
+			continue
+		}
 		merged.Data = append(merged.Data, msg.Data...)
 	}
 	return merged
 }
 
-type sortedByTimestamp []*MT940Messages
-
-// Len is the number of elements in the collection.
-func (s sortedByTimestamp) Len() int {
-	return len(s)
-}
-
-// Less reports whether the element with index i
-// must sort before the element with index j.
-//
-// If both Less(i, j) and Less(j, i) are false,
-// then the elements at index i and j are considered equal.
-// Sort may place equal elements in any order in the final result,
-// while Stable preserves the original input order of equal elements.
-//
-// Less must describe a transitive ordering:
-//  - if both Less(i, j) and Less(j, k) are true, then Less(i, k) must be true as well.
-//  - if both Less(i, j) and Less(j, k) are false, then Less(i, k) must be false as well.
-//
-// Note that floating-point comparison (the < operator on float32 or float64 values)
-// is not a transitive ordering when not-a-number (NaN) values are involved.
-// See Float64Slice.Less for a correct implementation for floating-point values.
-func (s sortedByTimestamp) Less(i int, j int) bool {
-	return s[i].timestamp < s[j].timestamp
-}
-
-// Swap swaps the elements with indexes i and j.
-func (s sortedByTimestamp) Swap(i int, j int) {
-	s[i], s[j] = s[j], s[i]
-}
-
 type MT940Unmarshaler interface {
 	UnmarshalMT940([]byte) ([]domain.AccountTransaction, error)
 }
-- 
2.43.0


From 740aa4d3e77be05ddef636167881fb1cdef15033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 41/96] fix: MT940 messages without account or balance panic,
 no transactions at all are an error

---
 swift/mt940_unmarshaler.go | 3 +++
 swift/unmarshal.go         | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/swift/mt940_unmarshaler.go b/swift/mt940_unmarshaler.go
index 14b7db8..a61843b 100644
--- a/swift/mt940_unmarshaler.go
+++ b/swift/mt940_unmarshaler.go
@@ -104,6 +104,9 @@ func (m *MT940) Unmarshal(value []byte) error {
 			return fmt.Errorf("malformed marshaled value")
 		}
 	}
+	if m.Account == nil || m.StartingBalance == nil || m.ClosingBalance == nil {
+		return fmt.Errorf("malformed marshaled value: missing account or balance")
+	}
 
 	return nil
 }
diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index f712242..7ef549b 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -43,6 +43,9 @@ func NewMT940MessagesUnmarshaler() MT940Unmarshaler {
 type mt940MessagesUnmarshaler struct{}
 
 func (m *mt940MessagesUnmarshaler) UnmarshalMT940(value []byte) ([]domain.AccountTransaction, error) {
+	if len(value) == 0 {
+		return nil, nil
+	}
 	messageExtractor := NewMessageExtractor(value)
 	messages, err := messageExtractor.Extract()
 	if err != nil {
@@ -55,6 +58,7 @@ func (m *mt940MessagesUnmarshaler) UnmarshalMT940(value []byte) ([]domain.Accoun
 		err = tr.Unmarshal(message)
 		if err != nil {
 			errors = append(errors, fmt.Errorf("error unmarshaling MT940: %w", err))
+			continue
 		}
 		transactions = append(transactions, tr.AccountTransactions()...)
 	}
-- 
2.43.0


From 4ff496aaee18ae169c437ebbee4d0cd20e365023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 42/96] fix: the sign of MT940 balances and of reversed
 transactions is lost

---
 swift/mt940.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 6a6b829..f047ab3 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -35,30 +35,20 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 		tr := transactionSequence.Transaction
 		descr := transactionSequence.Description
 		var amount float64
-		if tr.DebitCreditIndicator == "D" {
+		switch tr.DebitCreditIndicator {
+		case "D", "RC":
+			// a reversed credit reduces the balance like a debit
 			amount = -tr.Amount
-		} else {
+		default:
 			amount = tr.Amount
 		}
 		transaction := domain.AccountTransaction{
-			Account:     accountConnection,
-			Amount:      domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
-			ValutaDate:  tr.ValutaDate.Time,
-			BookingDate: tr.BookingDate.Time,
-			AccountBalanceBefore: domain.Balance{
-				Amount: domain.Amount{
-					Amount:   m.StartingBalance.Amount,
-					Currency: m.StartingBalance.Currency,
-				},
-				TransmissionDate: m.StartingBalance.BookingDate.Time,
-			},
-			AccountBalanceAfter: domain.Balance{
-				Amount: domain.Amount{
-					Amount:   m.ClosingBalance.Amount,
-					Currency: m.ClosingBalance.Currency,
-				},
-				TransmissionDate: m.ClosingBalance.BookingDate.Time,
-			},
+			Account:              accountConnection,
+			Amount:               domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
+			ValutaDate:           tr.ValutaDate.Time,
+			BookingDate:          tr.BookingDate.Time,
+			AccountBalanceBefore: m.StartingBalance.Balance(),
+			AccountBalanceAfter:  m.ClosingBalance.Balance(),
 		}
 		if descr != nil {
 			transaction.BookingText = descr.BookingText
@@ -174,6 +164,9 @@ func (b *BalanceTag) Unmarshal(value []byte) error {
 	b.Tag = string(elements[0])
 	buf := bytes.NewBuffer(elements[1])
 	b.DebitCreditIndicator = string(buf.Next(1))
+	if b.DebitCreditIndicator != "C" && b.DebitCreditIndicator != "D" {
+		return fmt.Errorf("%T: malformed debit/credit indicator %q", b, b.DebitCreditIndicator)
+	}
 	dateBytes := buf.Next(6)
 	date, err := parseDate(dateBytes, time.Now().Year())
 	if err != nil {
@@ -258,6 +251,8 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 			if len(runes) == 3 {
 				t.DebitCreditIndicator = string(runes[:2])
 				t.CurrencyKind = string(runes[2:])
+			} else if len(runes) == 2 && runes[0] == 'R' {
+				t.DebitCreditIndicator = string(runes)
 			} else if len(runes) == 2 {
 				t.DebitCreditIndicator = string(runes[:1])
 				t.CurrencyKind = string(runes[1:])
@@ -267,6 +262,11 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 			break
 		}
 	}
+	switch t.DebitCreditIndicator {
+	case "C", "D", "RC", "RD":
+	default:
+		return fmt.Errorf("%T: malformed debit/credit indicator %q", t, string(runes))
+	}
 	amountBytes, err := buf.ReadBytes('N')
 	if err != nil {
 		return err
-- 
2.43.0


From 846bff2d5b923a40d5425529d23082808989afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 43/96] fix: MT940 booking dates around New Year and 29
 February get the wrong year

---
 swift/mt940.go | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index f047ab3..8628bc3 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -3,7 +3,6 @@ package swift
 import (
 	"bytes"
 	"fmt"
-	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -228,15 +227,11 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	if unicode.IsDigit(r) {
 		buf.UnreadRune()
 		dateBytes = buf.Next(4)
-		date, err = parseDate(dateBytes, t.ValutaDate.Year())
+		date, err = parseBookingDate(dateBytes, t.ValutaDate.Time)
 		if err != nil {
 			return errors.WithMessage(err, "unmarshal transaction tag: parsing booking date")
 		}
 		t.BookingDate = domain.NewShortDate(date)
-		monthDiff := int(math.Abs(float64(t.ValutaDate.Month() - t.BookingDate.Month())))
-		if monthDiff > 1 {
-			t.BookingDate = domain.NewShortDate(t.BookingDate.AddDate(1, 0, 0))
-		}
 	}
 	var runes []rune
 	for {
@@ -308,6 +303,34 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	return nil
 }
 
+// parseBookingDate parses a date without a year. It lies in that year which
+// brings it closest to the valuta date.
+func parseBookingDate(value []byte, valutaDate time.Time) (time.Time, error) {
+	var bookingDate time.Time
+	var err error
+	for _, year := range []int{valutaDate.Year(), valutaDate.Year() - 1, valutaDate.Year() + 1} {
+		date, parseErr := parseDate(value, year)
+		if parseErr != nil {
+			err = parseErr
+			continue
+		}
+		if bookingDate.IsZero() || absDuration(date.Sub(valutaDate)) < absDuration(bookingDate.Sub(valutaDate)) {
+			bookingDate = date
+		}
+	}
+	if bookingDate.IsZero() {
+		return time.Time{}, err
+	}
+	return bookingDate, nil
+}
+
+func absDuration(d time.Duration) time.Duration {
+	if d < 0 {
+		return -d
+	}
+	return d
+}
+
 func parseDate(value []byte, referenceYear int) (time.Time, error) {
 	var offset int
 	if len(value) == 6 {
@@ -317,13 +340,20 @@ func parseDate(value []byte, referenceYear int) (time.Time, error) {
 	}
 	yearBegin := fmt.Sprintf("%d", referenceYear)[:offset]
 	dateString := yearBegin + string(value)
+	if len(dateString) != 8 {
+		return time.Time{}, fmt.Errorf("malformed date %q", value)
+	}
 	date, err := time.Parse("20060102", dateString)
 	if err != nil {
+		year, yearErr := strconv.Atoi(dateString[:4])
+		if yearErr != nil {
+			return time.Time{}, err
+		}
 		if strings.HasSuffix(dateString, "0229") {
-			return time.Date(referenceYear, 2, 29, 0, 0, 0, 0, time.UTC), nil
+			return time.Date(year, 2, 29, 0, 0, 0, 0, time.UTC), nil
 		}
 		if strings.HasSuffix(dateString, "0230") {
-			return time.Date(referenceYear, 2, 30, 0, 0, 0, 0, time.UTC), nil
+			return time.Date(year, 2, 30, 0, 0, 0, 0, time.UTC), nil
 		}
 		return time.Time{}, err
 	}
-- 
2.43.0


From fb170514f09fba5a22ea2033300f38eee0931752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 44/96] fix: dates and timeframes lose their JSON format when
 encoded by value, zero dates can't be decoded

---
 domain/time.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/domain/time.go b/domain/time.go
index 8eead6f..a1000db 100644
--- a/domain/time.go
+++ b/domain/time.go
@@ -25,7 +25,7 @@ func Date(year int, month time.Month, day int, location *time.Location) ShortDat
 }
 
 // MarshalJSON marshals the date into a JSON representation
-func (s *ShortDate) MarshalJSON() ([]byte, error) {
+func (s ShortDate) MarshalJSON() ([]byte, error) {
 	if s.IsZero() {
 		return json.Marshal("")
 	}
@@ -35,17 +35,21 @@ func (s *ShortDate) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON unmarshals the JSON representation into a date
 func (s *ShortDate) UnmarshalJSON(data []byte) error {
 	unquotedData, _ := strconv.Unquote(string(data))
+	if string(data) == `""` {
+		*s = ShortDate{}
+		return nil
+	}
 	time, err := time.Parse("2006-01-02", unquotedData)
 	s.Time = time
 	return err
 }
 
-func (s *ShortDate) String() string {
+func (s ShortDate) String() string {
 	return s.Format("2006-01-02")
 }
 
 // MarshalText marshals the date into a byte representation
-func (s *ShortDate) MarshalText() ([]byte, error) {
+func (s ShortDate) MarshalText() ([]byte, error) {
 	return []byte(s.Format("2006-01-02")), nil
 }
 
@@ -100,7 +104,7 @@ func (tf *Timeframe) ToQuery() url.Values {
 }
 
 // MarshalJSON marhsals the timeframe into a JSON string
-func (tf *Timeframe) MarshalJSON() ([]byte, error) {
+func (tf Timeframe) MarshalJSON() ([]byte, error) {
 	if tf.StartDate.IsZero() || tf.EndDate.IsZero() {
 		return json.Marshal("")
 	}
@@ -133,6 +137,6 @@ func (tf *Timeframe) IsZero() bool {
 	return tf.StartDate.IsZero() && tf.EndDate.IsZero()
 }
 
-func (tf *Timeframe) String() string {
+func (tf Timeframe) String() string {
 	return fmt.Sprintf("{%s-%s}", tf.StartDate, tf.EndDate)
 }
-- 
2.43.0


From 201f815229047ff2b976dfab5e420882d0061c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 45/96] fix: MT940 transaction details panic when cut short or
 not in ascending order

---
 swift/element.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/swift/element.go b/swift/element.go
index c2a91f2..c07c848 100644
--- a/swift/element.go
+++ b/swift/element.go
@@ -150,6 +150,9 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 		return err
 	}
 	c.Tag = tag.ID
+	if len(tag.Value) < 3 {
+		return fmt.Errorf("%T: Malformed marshaled value", c)
+	}
 	tID, err := strconv.Atoi(charset.ToUTF8(tag.Value[:3]))
 	if err != nil {
 		return err
@@ -171,12 +174,13 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 			marshaledFields[currentFieldKeyIndex+3 : nextFieldKeyIndex],
 		)
 	}
-	for i, fieldKeyIndex := range fields {
-		var nextFieldKeyIndex int
-		if len(fields)-1 == i {
-			nextFieldKeyIndex = len(marshaledFields)
-		} else {
-			nextFieldKeyIndex = fields[i+1].index
+	for _, fieldKeyIndex := range fields {
+		nextFieldKeyIndex := len(marshaledFields)
+		for _, other := range fields {
+			// the fields may appear in any order
+			if other.index > fieldKeyIndex.index && other.index < nextFieldKeyIndex {
+				nextFieldKeyIndex = other.index
+			}
 		}
 
 		fieldValue := getFieldValue(fieldKeyIndex.index, nextFieldKeyIndex)
-- 
2.43.0


From 7941ea796d5235df39cce8953784db04251d2d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 46/96] fix: multi-line MT940 texts of capital letters and
 digits only are syntax errors

---
 token/swift_lexer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/token/swift_lexer.go b/token/swift_lexer.go
index d4c9513..a183b71 100644
--- a/token/swift_lexer.go
+++ b/token/swift_lexer.go
@@ -92,7 +92,7 @@ func lexSwiftDigit(l *Lexer) LexerStateFn {
 	l.acceptRun(digits)
 	if l.accept(',') {
 		l.acceptRun(digits)
-		if p := l.peek(); p == carriageReturn {
+		if isTagBoundary(l) {
 			l.emit(SWIFT_DECIMAL)
 			return lexSwiftStart
 		}
@@ -113,6 +113,9 @@ func lexSwiftAlpha(l *Lexer) LexerStateFn {
 		return lexSwiftCharacter
 	case r == carriageReturn:
 		l.backup()
+		if !isTagBoundary(l) {
+			return lexSwiftAlphaNumeric
+		}
 		l.emit(SWIFT_ALPHA)
 		return lexSwiftStart
 	case r == eof:
@@ -132,6 +135,9 @@ func lexSwiftCharacter(l *Lexer) LexerStateFn {
 		return lexSwiftCharacter
 	case r == carriageReturn:
 		l.backup()
+		if !isTagBoundary(l) {
+			return lexSwiftAlphaNumeric
+		}
 		l.emit(SWIFT_CHARACTER)
 		return lexSwiftStart
 	case r == eof:
-- 
2.43.0


From a03e488dda97248d0a3e79807393e4779676f14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 47/96] fix: a MT940 message cut off right after a tag is
 dropped silently

---
 swift/message_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swift/message_extractor.go b/swift/message_extractor.go
index ad9bf44..1836d79 100644
--- a/swift/message_extractor.go
+++ b/swift/message_extractor.go
@@ -37,6 +37,9 @@ func (m *MessageExtractor) Extract() ([][]byte, error) {
 			current = []byte{}
 		}
 	}
+	if len(current) != 0 {
+		return nil, fmt.Errorf("unexpected end of input: last message is not terminated\n(%q)", m.rawSwiftMessage)
+	}
 	result := make([][]byte, len(m.extractedMessages))
 	copy(result, m.extractedMessages)
 	return result, nil
-- 
2.43.0


From 7a08ba2d604554cde6413c984eab7da84012c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 48/96] fix: continuation references which are missing panic,
 repeated ones never end

---
 client/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/client.go b/client/client.go
index 27c49b6..71a6ddf 100644
--- a/client/client.go
+++ b/client/client.go
@@ -199,6 +199,9 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 	acknowledgements := decryptedMessage.Acknowledgements()
 	for _, ack := range acknowledgements {
 		if ack.Code == element.AcknowledgementAdditionalInformation {
+			if len(ack.Params) == 0 || ack.Params[0] == "" || ack.Params[0] == continuationReference {
+				return nil, fmt.Errorf("malformed response: missing or repeated continuation reference: %v", ack)
+			}
 			newContinuationReference = ack.Params[0]
 			break
 		}
@@ -319,6 +322,9 @@ func (c *Client) SepaAccountBalances(account domain.InternationalAccountConnecti
 	acknowledgements := decryptedMessage.Acknowledgements()
 	for _, ack := range acknowledgements {
 		if ack.Code == element.AcknowledgementAdditionalInformation {
+			if len(ack.Params) == 0 || ack.Params[0] == "" || ack.Params[0] == continuationReference {
+				return nil, fmt.Errorf("malformed response: missing or repeated continuation reference: %v", ack)
+			}
 			newContinuationReference = ack.Params[0]
 			break
 		}
-- 
2.43.0


From b7a7edf5d491ac1c4cf062d29ac0dc98a0a9c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 49/96] fix: balances and status entries behind a continuation
 reference are lost

---
 client/client.go | 55 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index 71a6ddf..9fdf4c4 100644
--- a/client/client.go
+++ b/client/client.go
@@ -243,6 +243,10 @@ func (c *Client) AccountInformation(account domain.AccountConnection, allAccount
 // If allAccounts is true it will fetch also the balances for all accounts
 // associated with the account.
 func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts bool) ([]domain.AccountBalance, error) {
+	return c.accountBalances(account, allAccounts, "")
+}
+
+func (c *Client) accountBalances(account domain.AccountConnection, allAccounts bool, continuationReference string) ([]domain.AccountBalance, error) {
 	if err := c.init(); err != nil {
 		return nil, err
 	}
@@ -251,6 +255,9 @@ func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts b
 	if err != nil {
 		return nil, err
 	}
+	if continuationReference != "" {
+		accountBalanceRequest.SetContinuationMark(continuationReference)
+	}
 	decryptedMessage, err := c.pinTanDialog.SendMessage(
 		message.NewHBCIMessage(
 			c.hbciVersion,
@@ -273,8 +280,32 @@ func (c *Client) AccountBalances(account domain.AccountConnection, allAccounts b
 	if len(balanceResponses) == 0 {
 		return nil, fmt.Errorf("malformed response: expected HISAL segment")
 	}
+	newContinuationReference, err := nextContinuationReference(decryptedMessage, continuationReference)
+	if err != nil {
+		return nil, err
+	}
+	if newContinuationReference == "" {
+		return balances, nil
+	}
+	nextBal, err := c.accountBalances(account, allAccounts, newContinuationReference)
+	if err != nil {
+		return nil, err
+	}
+	return append(balances, nextBal...), nil
+}
 
-	return balances, nil
+// nextContinuationReference returns the reference to continue the request
+// with, or an empty string if the bank has sent everything.
+func nextContinuationReference(bankMessage message.BankMessage, continuationReference string) (string, error) {
+	for _, ack := range bankMessage.Acknowledgements() {
+		if ack.Code == element.AcknowledgementAdditionalInformation {
+			if len(ack.Params) == 0 || ack.Params[0] == "" || ack.Params[0] == continuationReference {
+				return "", fmt.Errorf("malformed response: missing or repeated continuation reference: %v", ack)
+			}
+			return ack.Params[0], nil
+		}
+	}
+	return "", nil
 }
 
 // AccountBalances retrieves the balance for the provided account.
@@ -342,7 +373,8 @@ func (c *Client) SepaAccountBalances(account domain.InternationalAccountConnecti
 
 // Status returns information about open jobs to fetch from the institute.
 // If a continuationReference is present, the status information attached to it
-// will be fetched.
+// will be fetched. It continues until the bank has sent everything or there are
+// maxEntries entries, if greater than zero.
 func (c *Client) Status(from, to time.Time, maxEntries int, continuationReference string) ([]domain.StatusAcknowledgement, error) {
 	if err := c.init(); err != nil {
 		return nil, err
@@ -364,7 +396,24 @@ func (c *Client) Status(from, to time.Time, maxEntries int, continuationReferenc
 		statusResponse := seg.(segment.StatusProtocolResponse)
 		statusAcknowledgements = append(statusAcknowledgements, statusResponse.Status())
 	}
-	return statusAcknowledgements, nil
+	if maxEntries > 0 {
+		maxEntries -= len(statusAcknowledgements)
+		if maxEntries <= 0 {
+			return statusAcknowledgements, nil
+		}
+	}
+	newContinuationReference, err := nextContinuationReference(bankMessage, continuationReference)
+	if err != nil {
+		return nil, err
+	}
+	if newContinuationReference == "" {
+		return statusAcknowledgements, nil
+	}
+	nextStatus, err := c.Status(from, to, maxEntries, newContinuationReference)
+	if err != nil {
+		return nil, err
+	}
+	return append(statusAcknowledgements, nextStatus...), nil
 }
 
 // AnonymousClient wraps a Client and allows anonymous requests to bank
-- 
2.43.0


From 1d4fe7af7322cdb9c3b39378e1f6776271707a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 50/96] fix: the bank's error is lost when fetching accounts

---
 client/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index 9fdf4c4..0a6c2df 100644
--- a/client/client.go
+++ b/client/client.go
@@ -105,7 +105,7 @@ func (c *Client) init() error {
 	if c.pinTanDialog.BankParameterDataVersion() == 0 {
 		_, err := c.pinTanDialog.SyncClientSystemID()
 		if err != nil {
-			return fmt.Errorf("error while fetching accounts: %v", err)
+			return fmt.Errorf("error while fetching accounts: %w", err)
 		}
 	}
 	return nil
@@ -118,7 +118,7 @@ func (c *Client) Accounts() ([]domain.AccountInformation, error) {
 	}
 	err := c.pinTanDialog.SyncUserParameterData()
 	if err != nil {
-		return nil, fmt.Errorf("error getting accounts")
+		return nil, fmt.Errorf("error getting accounts: %w", err)
 	}
 	return c.pinTanDialog.Accounts, nil
 }
-- 
2.43.0


From 3e3173687606013375ec8e70206ceb2603ea1422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 51/96] fix: the logging middleware passes bodies on which
 could not be read completely

---
 transport/middleware/logging.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transport/middleware/logging.go b/transport/middleware/logging.go
index 4192be6..6639671 100644
--- a/transport/middleware/logging.go
+++ b/transport/middleware/logging.go
@@ -26,6 +26,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledRequest, err := io.ReadAll(io.TeeReader(req.Body, &buf))
 			if err != nil {
 				logger.Printf("Error reading request body: %v", err)
+				return nil, err
 			}
 			req.Body = io.NopCloser(&buf)
 			logger.Println("Decrypted Request:")
@@ -42,6 +43,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledResponse, err := io.ReadAll(io.TeeReader(res.Body, &responseBuf))
 			if err != nil {
 				logger.Printf("Error reading response body: %v", err)
+				return nil, err
 			}
 			res.Body = io.NopCloser(&responseBuf)
 			logger.Println("Decrypted Response:")
-- 
2.43.0


From 7bad8571fefb119e51ba225c0c416a143a3e06e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 52/96] fix: switching the log mode races with clients used
 concurrently

---
 internal/logger.go | 54 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 736035a..78df43a 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -5,41 +5,69 @@ import (
 	"io"
 	"log"
 	"os"
+	"strconv"
+	"sync/atomic"
 )
 
 func init() {
-	flag.BoolVar(&debugMode, "debug", false, "true")
+	flag.Var(&debugMode, "debug", "true")
 }
 
-var debugMode = false
-var infoMode = true
+// mode is a boolean which may be read and set concurrently. It can be used as
+// a command line flag.
+type mode int32
+
+func (m *mode) enabled() bool { return atomic.LoadInt32((*int32)(m)) != 0 }
+
+func (m *mode) set(enabled bool) {
+	var value int32
+	if enabled {
+		value = 1
+	}
+	atomic.StoreInt32((*int32)(m), value)
+}
+
+func (m *mode) String() string   { return strconv.FormatBool(m.enabled()) }
+func (m *mode) IsBoolFlag() bool { return true }
+
+func (m *mode) Set(value string) error {
+	enabled, err := strconv.ParseBool(value)
+	if err != nil {
+		return err
+	}
+	m.set(enabled)
+	return nil
+}
+
+var debugMode mode = 0
+var infoMode mode = 1
 var debugFlags = log.Lshortfile | log.LstdFlags
 
 // DebugMode returns true if debugMode is set, false otherwise
 func DebugMode() bool {
-	return debugMode
+	return debugMode.enabled()
 }
 
 // SetDebugMode sets the debug mode
 func SetDebugMode(debug bool) {
-	debugMode = debug
+	debugMode.set(debug)
 }
 
 // InfoLog returns true if logging to info level is enabled, false otherwise
 func InfoLog() bool {
-	return infoMode
+	return infoMode.enabled()
 }
 
 // SetInfoLog sets whether the info log should be enabled
 func SetInfoLog(info bool) {
-	infoMode = info
+	infoMode.set(info)
 }
 
 // WithDebugLogging enables debug logging for the given function fn
 func WithDebugLogging(fn func()) {
-	debugMode = true
+	debugMode.set(true)
 	fn()
-	debugMode = false
+	debugMode.set(false)
 }
 
 // Debug is a logger which logs when debugMode is enabled. If disabled, it executes a noop
@@ -48,22 +76,22 @@ var Debug = newConditionalLogger(os.Stderr, "go-hbci: ", debugFlags, &debugMode)
 // Info is a logger which logs when infoMode is enabled. If disabled, it executes a noop
 var Info = newConditionalLogger(os.Stderr, "go-hbci: ", log.LstdFlags, &infoMode)
 
-func newConditionalLogger(w io.Writer, prefix string, flag int, condition *bool) *log.Logger {
+func newConditionalLogger(w io.Writer, prefix string, flag int, condition *mode) *log.Logger {
 	condWriter := newConditionalWriter(w, condition)
 	return log.New(condWriter, prefix, flag)
 }
 
-func newConditionalWriter(w io.Writer, condition *bool) io.Writer {
+func newConditionalWriter(w io.Writer, condition *mode) io.Writer {
 	return &conditionalWriter{Writer: w, condition: condition}
 }
 
 type conditionalWriter struct {
-	condition *bool
+	condition *mode
 	io.Writer
 }
 
 func (c *conditionalWriter) Write(p []byte) (n int, err error) {
-	if *c.condition {
+	if c.condition.enabled() {
 		return c.Writer.Write(p)
 	}
 	return 0, nil
-- 
2.43.0


From 66fbc03ae6671a0f68adffad4b8b7062906b92ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 53/96] fix: malformed IBANs panic or are accepted, short
 german account numbers give a wrong IBAN

---
 iban/iban.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/iban/iban.go b/iban/iban.go
index 8a6db5c..973efe0 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -8,8 +8,11 @@ import (
 )
 
 const countryDE = "DE"
+const germanBankIDLength = 8
 const germanAccountIDLength = 10
 const maxAllowedIBANLength = 34
+const digits = "0123456789"
+const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
 
 // IsValid validates the IBAN for its proof number
 func IsValid(input string) bool {
@@ -25,7 +28,13 @@ func IsValid(input string) bool {
 // It returns only valid german IBANs, as it is hard coded to use german
 // settings.
 func NewGerman(bankID, accountID string) (IBAN, error) {
-	if len(accountID) == (germanAccountIDLength - 1) {
+	if len(bankID) != germanBankIDLength || !consistsOf(bankID, digits) {
+		return "", fmt.Errorf("malformed bankID: must have %d digits", germanBankIDLength)
+	}
+	if len(accountID) == 0 || len(accountID) > germanAccountIDLength || !consistsOf(accountID, digits) {
+		return "", fmt.Errorf("malformed accountID: must have at max %d digits", germanAccountIDLength)
+	}
+	for len(accountID) < germanAccountIDLength {
 		accountID = "0" + accountID
 	}
 
@@ -39,6 +48,12 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 	if len(countryCode) != 2 {
 		return "", fmt.Errorf("malformed countryCode: must have two characters")
 	}
+	if !consistsOf(countryCode, letters) {
+		return "", fmt.Errorf("malformed countryCode: must consist of letters")
+	}
+	if !consistsOf(BBAN, digits+letters) {
+		return "", fmt.Errorf("malformed BBAN: must consist of digits and letters")
+	}
 	countryCode = strings.ToUpper(countryCode)
 
 	ibanLen, ok := ibanMaxLengthForCountry[countryCode]
@@ -69,6 +84,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 // From creates an IBAN from the provided input. If the input is not a valid IBAN, it
 // returns an error.
 func From(input string) (IBAN, error) {
+	if len(input) < 4 {
+		return "", fmt.Errorf("malformed IBAN: too short")
+	}
 	countryCode := input[:2]
 	proofNumber := input[2:4]
 	bban := input[4:]
@@ -115,7 +133,10 @@ func (i IBAN) ProofNumber() string {
 
 // Valid returns true if the IBAN is valid, false otherwise
 func (i IBAN) Valid() bool {
-	if len(i) > maxAllowedIBANLength {
+	if len(i) < 5 || len(i) > maxAllowedIBANLength {
+		return false
+	}
+	if !consistsOf(i.CountryCode(), letters) || !consistsOf(i.ProofNumber(), digits) || !consistsOf(i.BBAN(), digits+letters) {
 		return false
 	}
 	countryCode := i.CountryCode()
@@ -154,6 +175,10 @@ func Print(iban IBAN) string {
 	return strings.TrimSpace(out.String())
 }
 
+func consistsOf(value, chars string) bool {
+	return strings.Trim(value, chars) == ""
+}
+
 func transformLettersToDigits(letters string) string {
 	var replaced []string
 	for k, v := range alphaToDigit {
-- 
2.43.0


From 8173efceb95f947980ee4dffca7e5ad467902869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 54/96] fix: decoding ISO 9796-1 blocks returns padding or
 panics, RSA keys with CRT parameters panic

---
 crypto/iso9796_encoding.go | 11 +++++++----
 crypto/rsa.go              |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/crypto/iso9796_encoding.go b/crypto/iso9796_encoding.go
index 9d20eb8..dbfa50b 100644
--- a/crypto/iso9796_encoding.go
+++ b/crypto/iso9796_encoding.go
@@ -52,7 +52,7 @@ func (i *ISO9796d1Encoding) Init(forEncryption bool, key RSAKeyParameters) {
 }
 
 func (i *ISO9796d1Encoding) BlockSize() int {
-	return i.BlockSize()
+	return i.InputBlockSize()
 }
 
 /**
@@ -166,12 +166,15 @@ func (i *ISO9796d1Encoding) decodeBlock(in []byte, inOff, inLen int) ([]byte, er
 	if x = x.Mod(iS, sixteen); x.Cmp(six) == 0 {
 		iR = iS
 	} else if y = y.Mod(y.Sub(i.modulus, iS), sixteen); y.Cmp(six) == 0 {
-		iR = iR.Sub(i.modulus, iS)
+		iR = new(big.Int).Sub(i.modulus, iS)
 	} else {
 		return nil, fmt.Errorf("resulting integer iS or (modulus - iS) is not congruent to 6 mod 16")
 	}
 
 	block = i.convertOutputDecryptOnly(iR)
+	if len(block) < 2*t {
+		return nil, fmt.Errorf("block too short")
+	}
 
 	if (block[len(block)-1] & 0x0f) != 0x6 {
 		return nil, fmt.Errorf("invalid forcing byte in block")
@@ -183,7 +186,7 @@ func (i *ISO9796d1Encoding) decodeBlock(in []byte, inOff, inLen int) ([]byte, er
 	boundaryFound := false
 	boundary := 0
 
-	for i := len(block) - 1; i < len(block)-2*t; i -= 2 {
+	for i := len(block) - 1; i >= len(block)-2*t; i -= 2 {
 		val := ((shadows[(block[i]&0xff)>>4] << 4) | shadows[block[i]&0x0f])
 
 		if ((block[i-1] ^ val) & 0xff) != 0 {
@@ -212,7 +215,7 @@ func (i *ISO9796d1Encoding) decodeBlock(in []byte, inOff, inLen int) ([]byte, er
 
 func (i *ISO9796d1Encoding) convertOutputDecryptOnly(result *big.Int) []byte {
 	output := result.Bytes()
-	if output[0] == 0 { // have ended up with an extra zero byte, copy down.
+	if len(output) > 0 && output[0] == 0 { // have ended up with an extra zero byte, copy down.
 		tmp := make([]byte, len(output)-1)
 		// System.arraycopy(output, 1, tmp, 0, tmp.length);
 		arrayCopy(output, 1, tmp, 0, len(tmp))
diff --git a/crypto/rsa.go b/crypto/rsa.go
index 7efaba4..6d66e7d 100644
--- a/crypto/rsa.go
+++ b/crypto/rsa.go
@@ -143,7 +143,7 @@ func (r *RSACoreEngine) ConvertInput(in []byte, inOff, inLen int) *big.Int {
 func (r *RSACoreEngine) ConvertOutput(result *big.Int) []byte {
 	output := result.Bytes()
 	if r.forEncryption {
-		if output[0] == 0 && len(output) > r.OutputBlockSize() {
+		if len(output) > 0 && output[0] == 0 && len(output) > r.OutputBlockSize() {
 
 			// have ended up with an extra zero byte, copy down.
 			tmp := make([]byte, len(output)-1)
@@ -164,7 +164,7 @@ func (r *RSACoreEngine) ConvertOutput(result *big.Int) []byte {
 		}
 
 	} else {
-		if output[0] == 0 { // have ended up with an extra zero byte, copy down.
+		if len(output) > 0 && output[0] == 0 { // have ended up with an extra zero byte, copy down.
 			tmp := make([]byte, len(output)-1)
 
 			// System.arraycopy(output, 1, tmp, 0, tmp.length);
@@ -190,7 +190,7 @@ func (r *RSACoreEngine) ProcessBlock(input *big.Int) *big.Int {
 		dQ := crtKey.DQ()
 		qInv := crtKey.QInv()
 
-		var mP, mQ, h, m *big.Int
+		mP, mQ, h, m := new(big.Int), new(big.Int), new(big.Int), new(big.Int)
 
 		// mP = ((input mod p) ^ dP)) mod p
 		mP = mP.Exp(new(big.Int).Rem(input, p), dP, p)
@@ -204,7 +204,7 @@ func (r *RSACoreEngine) ProcessBlock(input *big.Int) *big.Int {
 		h = h.Mod(h, p) // mod (in Java) returns the positive residual
 
 		// m = h * q + mQ
-		m = h.Mul(h, q)
+		m = m.Mul(h, q)
 		m = m.Add(m, mQ)
 
 		return m
-- 
2.43.0


From 69f8cafd3084a9fed1c7e2f9c60db2f044d91fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 55/96] fix: encryption keys lose modulus and exponent

---
 domain/key.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/domain/key.go b/domain/key.go
index 696c712..94dfaa2 100644
--- a/domain/key.go
+++ b/domain/key.go
@@ -193,10 +193,10 @@ func (r *RSAKey) CanEncrypt() bool {
 // NewEncryptionKey creates a new RSA encryption key
 func NewEncryptionKey(modulus, exponent []byte) *PublicKey {
 	p := &PublicKey{
-		Type: "V",
+		Type:     "V",
+		Modulus:  append([]byte{}, modulus...),
+		Exponent: append([]byte{}, exponent...),
 	}
-	copy(p.Modulus, modulus)
-	copy(p.Exponent, exponent)
 	mod := new(big.Int).SetBytes(modulus)
 	exp := new(big.Int).SetBytes(exponent)
 	pubKey := rsa.PublicKey{
-- 
2.43.0


From 7f16b56e13bdc5cd3ae420cd4ea499a95f5a6738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 56/96] fix: all languages have the same code

---
 domain/language.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/language.go b/domain/language.go
index 1f2ef1a..d904d66 100644
--- a/domain/language.go
+++ b/domain/language.go
@@ -8,7 +8,7 @@ const (
 	// German represents the german language
 	German Language = 1
 	// English represents the english language
-	English
+	English Language = 2
 	// French represents the french language
-	French
+	French Language = 3
 )
-- 
2.43.0


From f4d59e7e3065a6c04a77cdc061a48a25eebbe06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 57/96] fix: request builders reorder the caller's list of
 versions

---
 segment/account_balance.go     | 2 ++
 segment/account_transaction.go | 2 ++
 segment/status_protocol.go     | 1 +
 segment/tan.go                 | 1 +
 4 files changed, 6 insertions(+)

diff --git a/segment/account_balance.go b/segment/account_balance.go
index 01f484d..eb75ea1 100644
--- a/segment/account_balance.go
+++ b/segment/account_balance.go
@@ -20,6 +20,7 @@ var sepaAccountBalanceRequests = map[int]func(account domain.InternationalAccoun
 
 // AccountBalanceRequestBuilder returns the highest matching versioned segment
 func AccountBalanceRequestBuilder(versions []int) (func(account domain.AccountConnection, allAccounts bool) AccountBalanceRequest, error) {
+	versions = append([]int(nil), versions...)
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
 		builder, ok := accountBalanceRequests[version]
@@ -32,6 +33,7 @@ func AccountBalanceRequestBuilder(versions []int) (func(account domain.AccountCo
 
 // SepaAccountBalanceRequestBuilder returns the highest matching versioned segment
 func SepaAccountBalanceRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) AccountBalanceRequest, error) {
+	versions = append([]int(nil), versions...)
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
 		builder, ok := sepaAccountBalanceRequests[version]
diff --git a/segment/account_transaction.go b/segment/account_transaction.go
index a90c5f4..85e0190 100644
--- a/segment/account_transaction.go
+++ b/segment/account_transaction.go
@@ -16,6 +16,7 @@ var accountTransactionRequests = map[int](func(account domain.AccountConnection,
 }
 
 func AccountTransactionRequestBuilder(versions []int) (func(account domain.AccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
+	versions = append([]int(nil), versions...)
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
 		builder, ok := accountTransactionRequests[version]
@@ -27,6 +28,7 @@ func AccountTransactionRequestBuilder(versions []int) (func(account domain.Accou
 }
 
 func SepaAccountTransactionRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
+	versions = append([]int(nil), versions...)
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
 		switch version {
diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index 25b7a79..ab7ac85 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -10,6 +10,7 @@ import (
 )
 
 func StatusProtocolRequestBuilder(versions []int) (func(from, to time.Time, maxEntries int, continuationReference string) StatusProtocolRequest, error) {
+	versions = append([]int(nil), versions...)
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
 		switch version {
diff --git a/segment/tan.go b/segment/tan.go
index 4ce19e0..ce6b01c 100644
--- a/segment/tan.go
+++ b/segment/tan.go
@@ -15,6 +15,7 @@ var tanProcess4RequestSegmentConstructors = map[int](tanProcess4Constructor){
 }
 
 func TanProcess4RequestBuilder(versions []int) (tanProcess4Constructor, error) {
+	versions = append([]int(nil), versions...)
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
 		builder, ok := tanProcess4RequestSegmentConstructors[version]
-- 
2.43.0


From adfffd16919b2c7f94fc5720c7d4c94e21f751fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 58/96] fix: key revocations accept any reason

---
 segment/key_management.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segment/key_management.go b/segment/key_management.go
index 50acade..f5c4118 100644
--- a/segment/key_management.go
+++ b/segment/key_management.go
@@ -144,7 +144,7 @@ var validRevocationReasons = []string{
 }
 
 func NewPublicKeyRevocationSegment(number int, keyName domain.KeyName, reason string) *PublicKeyRevocationSegment {
-	if sort.SearchStrings(validRevocationReasons, reason) > len(validRevocationReasons) {
+	if i := sort.SearchStrings(validRevocationReasons, reason); i == len(validRevocationReasons) || validRevocationReasons[i] != reason {
 		panic(fmt.Errorf("Reason must be one of %v", validRevocationReasons))
 	}
 	p := &PublicKeyRevocationSegment{
@@ -193,7 +193,7 @@ func NewPublicKeyRevocationConfirmationSegment(dialogId string, number int, mess
 	if messageReference <= 0 {
 		panic(fmt.Errorf("Message Reference number must be greater 0"))
 	}
-	if sort.SearchStrings(validRevocationReasons, reason) > len(validRevocationReasons) {
+	if i := sort.SearchStrings(validRevocationReasons, reason); i == len(validRevocationReasons) || validRevocationReasons[i] != reason {
 		panic(fmt.Errorf("Reason must be one of %v", validRevocationReasons))
 	}
 	p := &PublicKeyRevocationConfirmationSegment{
-- 
2.43.0


From 4465aba2024919c8e58438b98fb02577332562cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 59/96] fix: accounts of HIUPD v6 and v7 keep only the first
 allowed business transaction

---
 segment/basic_account_information.go          | 27 +++++++++++++++++++
 .../basic_account_information_unmarshaler.go  | 10 ++++---
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/segment/basic_account_information.go b/segment/basic_account_information.go
index c01b7c0..c42e427 100644
--- a/segment/basic_account_information.go
+++ b/segment/basic_account_information.go
@@ -1,6 +1,8 @@
 package segment
 
 import (
+	"bytes"
+
 	"github.com/mitch000001/go-hbci/domain"
 	"github.com/mitch000001/go-hbci/element"
 )
@@ -261,3 +263,28 @@ func (a *AccountInformationV7) elements() []element.DataElement {
 		a.AccountExtensions,
 	}
 }
+
+// joinAllowedBusinessTransactions joins the allowed business transactions,
+// which are repeated as data elements starting at index, so that the account
+// extensions are the element after them. The extensions are told from the
+// transactions by not being a group.
+func joinAllowedBusinessTransactions(elements [][]byte, index int) [][]byte {
+	if len(elements) <= index {
+		return elements
+	}
+	var transactions [][]byte
+	rest := elements[index:]
+	for len(rest) > 0 {
+		if len(rest[0]) > 0 {
+			group, err := element.ExtractElements(rest[0])
+			if err != nil || len(group) < 2 {
+				break
+			}
+			transactions = append(transactions, rest[0])
+		}
+		rest = rest[1:]
+	}
+	joined := append([][]byte{}, elements[:index]...)
+	joined = append(joined, bytes.Join(transactions, []byte("+")))
+	return append(joined, rest...)
+}
diff --git a/segment/basic_account_information_unmarshaler.go b/segment/basic_account_information_unmarshaler.go
index a14818c..094ef9a 100644
--- a/segment/basic_account_information_unmarshaler.go
+++ b/segment/basic_account_information_unmarshaler.go
@@ -10,10 +10,10 @@ import (
 )
 
 var (
-	_	BankSegment	= &AccountInformationV4{}
-	_	BankSegment	= &AccountInformationV5{}
-	_	BankSegment	= &AccountInformationV6{}
-	_	BankSegment	= &AccountInformationV7{}
+	_ BankSegment = &AccountInformationV4{}
+	_ BankSegment = &AccountInformationV5{}
+	_ BankSegment = &AccountInformationV6{}
+	_ BankSegment = &AccountInformationV7{}
 )
 
 func init() {
@@ -242,6 +242,7 @@ func (a *AccountInformationV6) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	a.Segment = seg
+	elements = joinAllowedBusinessTransactions(elements, 10)
 	if len(elements) > 1 && len(elements[1]) > 0 {
 		a.AccountConnection = &element.AccountConnectionDataElement{}
 		err = a.AccountConnection.UnmarshalHBCI(elements[1])
@@ -339,6 +340,7 @@ func (a *AccountInformationV7) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	a.Segment = seg
+	elements = joinAllowedBusinessTransactions(elements, 10)
 	if len(elements) > 1 && len(elements[1]) > 0 {
 		a.AccountConnection = &element.AccountConnectionDataElement{}
 		err = a.AccountConnection.UnmarshalHBCI(elements[1])
-- 
2.43.0


From c116670ae804912d57cf7d0be70ba23299a9c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 60/96] fix: HIPINS and HITANS without optional lengths fail
 the whole response

---
 element/pin.go | 12 +++---------
 element/tan.go | 16 +++++++---------
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/element/pin.go b/element/pin.go
index 35662f2..601fa8a 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -114,21 +114,15 @@ func (t *PinTanSpecificParamDataElement) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	iter := internal.NewIterator(elements)
-	var PinMinLength NumberDataElement
-	if err := PinMinLength.UnmarshalHBCI(iter.Next()); err != nil {
+	if err := unmarshalElement([][]byte{iter.Next()}, 0, &t.PinMinLength); err != nil {
 		return fmt.Errorf("error unmarshaling PinMinLength: %v", err)
 	}
-	t.PinMinLength = &PinMinLength
-	var PinMaxLength NumberDataElement
-	if err := PinMaxLength.UnmarshalHBCI(iter.Next()); err != nil {
+	if err := unmarshalElement([][]byte{iter.Next()}, 0, &t.PinMaxLength); err != nil {
 		return fmt.Errorf("error unmarshaling PinMaxLength: %v", err)
 	}
-	t.PinMaxLength = &PinMaxLength
-	var TanMaxLength NumberDataElement
-	if err := TanMaxLength.UnmarshalHBCI(iter.Next()); err != nil {
+	if err := unmarshalElement([][]byte{iter.Next()}, 0, &t.TanMaxLength); err != nil {
 		return fmt.Errorf("error unmarshaling TanMaxLength: %v", err)
 	}
-	t.TanMaxLength = &TanMaxLength
 	var UserIDText AlphaNumericDataElement
 	if err := UserIDText.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling UserIDText: %v", err)
diff --git a/element/tan.go b/element/tan.go
index a68fe8c..96eda31 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -153,6 +153,10 @@ func (t *Tan2StepSubmissionProcessParametersV6) UnmarshalHBCI(value []byte) erro
 	if err != nil {
 		return err
 	}
+	if len(elements)%21 == 20 {
+		// The last element of a process is optional and left out at the end.
+		elements = append(elements, nil)
+	}
 	if len(elements)%21 != 0 {
 		return fmt.Errorf("malformed marshaled value: value pairs not even")
 	}
@@ -241,18 +245,14 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 	t.ZKATanProcess = NewAlphaNumeric(decodeText(iter.Next()), 32)
 	t.ZKATanProcessVersion = NewAlphaNumeric(decodeText(iter.Next()), 10)
 	t.TwoStepProcessName = NewAlphaNumeric(decodeText(iter.Next()), 30)
-	var twoStepProcessMaxInputValue NumberDataElement
-	if err := twoStepProcessMaxInputValue.UnmarshalHBCI(iter.Next()); err != nil {
+	if err := unmarshalElement([][]byte{iter.Next()}, 0, &t.TwoStepProcessMaxInputValue); err != nil {
 		return fmt.Errorf("error unmarshaling TwoStepProcessMaxInputValue: %v", err)
 	}
-	t.TwoStepProcessMaxInputValue = &twoStepProcessMaxInputValue
 	t.TwoStepProcessAllowedFormat = NewCode(decodeText(iter.Next()), 1, nil)
 	t.TwoStepProcessReturnValueText = NewAlphaNumeric(decodeText(iter.Next()), 30)
-	var TwoStepProcessReturnValueTextMaxLength NumberDataElement
-	if err := TwoStepProcessReturnValueTextMaxLength.UnmarshalHBCI(iter.Next()); err != nil {
+	if err := unmarshalElement([][]byte{iter.Next()}, 0, &t.TwoStepProcessReturnValueTextMaxLength); err != nil {
 		return fmt.Errorf("error unmarshaling TwoStepProcessReturnValueTextMaxLength: %v", err)
 	}
-	t.TwoStepProcessReturnValueTextMaxLength = &TwoStepProcessReturnValueTextMaxLength
 	var MultiTANAllowed BooleanDataElement
 	if err := MultiTANAllowed.UnmarshalHBCI(iter.Next()); err != nil {
 		return fmt.Errorf("error unmarshaling MultiTANAllowed: %v", err)
@@ -283,11 +283,9 @@ func (t *Tan2StepSubmissionProcessParameterV6) UnmarshalHBCI(value []byte) error
 		return fmt.Errorf("error unmarshaling HHD_UCResponseRequired: %v", err)
 	}
 	t.HHD_UCResponseRequired = &HHD_UCResponseRequired
-	var SupportedActiveTanMedia NumberDataElement
-	if err := SupportedActiveTanMedia.UnmarshalHBCI(iter.Next()); err != nil {
+	if err := unmarshalElement([][]byte{iter.Next()}, 0, &t.SupportedActiveTanMedia); err != nil {
 		return fmt.Errorf("error unmarshaling SupportedActiveTanMedia: %v", err)
 	}
-	t.SupportedActiveTanMedia = &SupportedActiveTanMedia
 	t.DataElement = NewGroupDataElementGroup(pinTanBusinessTransactionParameterGDEG, 2, t)
 	return nil
 }
-- 
2.43.0


From 0fcf298563433a9fe565d83880eed86a02549ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 61/96] fix: decoding a custom signature panics

---
 element/pin.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/element/pin.go b/element/pin.go
index 601fa8a..1750dd1 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -30,6 +30,12 @@ type CustomSignatureDataElement struct {
 	*PinTanDataElement
 }
 
+// UnmarshalHBCI unmarshals value into the DataElement
+func (c *CustomSignatureDataElement) UnmarshalHBCI(value []byte) error {
+	c.PinTanDataElement = &PinTanDataElement{}
+	return c.PinTanDataElement.UnmarshalHBCI(value)
+}
+
 // NewPinTan returns a new PinTanDataElement for pin and tan
 func NewPinTan(pin, tan string) *PinTanDataElement {
 	p := &PinTanDataElement{
-- 
2.43.0


From 92c19d1eb5c55ac0d871df3f5e71bd13ed1c8a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 62/96] fix: additional information starting with a slash
 panics

---
 swift/mt940.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swift/mt940.go b/swift/mt940.go
index 8628bc3..f07ad8c 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -276,6 +276,10 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	remaining := buf.String()
 	addInfSepIdx := strings.Index(remaining, "\r\n/")
 	doubleSlashIdx := strings.Index(remaining, "//")
+	if addInfSepIdx != -1 && doubleSlashIdx == addInfSepIdx+2 {
+		// The second slash belongs to the additional information.
+		doubleSlashIdx = -1
+	}
 
 	if doubleSlashIdx != -1 && addInfSepIdx != -1 {
 		t.Reference = remaining[:doubleSlashIdx]
-- 
2.43.0


From c06e5472bd6fc26a1e59eeae00e25e5ceea44f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 63/96] fix: read the overdraft and the booking timestamp of
 account balances version 6 to 8

---
 element/data_element_type.go           |  2 +
 element/group_data_element_group.go    | 62 ++++++++++++++++++++++++++
 segment/account_balance.go             | 59 +++++++++---------------
 segment/account_balance_unmarshaler.go | 44 +++++++++---------
 4 files changed, 108 insertions(+), 59 deletions(-)

diff --git a/element/data_element_type.go b/element/data_element_type.go
index 197ee28..03c4558 100644
--- a/element/data_element_type.go
+++ b/element/data_element_type.go
@@ -35,6 +35,7 @@ const (
 	accountConnectionGDEG
 	internationalAccountConnectionGDEG
 	balanceGDEG
+	timestampGDEG
 	addressGDEG
 	securityMethodVersionGDEG
 	acknowlegdementParamsGDEG
@@ -93,6 +94,7 @@ var typeName = map[DataElementType]string{
 	accountConnectionGDEG:                  "ktv",
 	internationalAccountConnectionGDEG:     "kti",
 	balanceGDEG:                            "sdo",
+	timestampGDEG:                          "tsp",
 	addressGDEG:                            "addr",
 	securityMethodVersionGDEG:              "Unterstützte Sicherheitsverfahren",
 	acknowlegdementParamsGDEG:              "Rückmeldungsparameter",
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 8ab9537..d0c8974 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -415,6 +415,68 @@ func (b *BalanceDataElement) Date() time.Time {
 	return b.TransmissionDate.Val()
 }
 
+// NewTimestamp returns a new TimestampDataElement
+func NewTimestamp(timestamp time.Time, withTime bool) *TimestampDataElement {
+	t := &TimestampDataElement{
+		Date: NewDate(timestamp),
+	}
+	if withTime {
+		t.Time = NewTime(timestamp)
+	}
+	t.DataElement = NewGroupDataElementGroup(timestampGDEG, 2, t)
+	return t
+}
+
+// A TimestampDataElement represents a date with an optional time of day
+type TimestampDataElement struct {
+	DataElement
+	Date *DateDataElement
+	Time *TimeDataElement
+}
+
+// Elements returns all child elements of t
+func (t *TimestampDataElement) Elements() []DataElement {
+	return []DataElement{
+		t.Date,
+		t.Time,
+	}
+}
+
+// Val returns the timestamp as time.Time
+func (t *TimestampDataElement) Val() time.Time {
+	date := t.Date.Val()
+	if t.Time == nil {
+		return date
+	}
+	hour, min, sec := t.Time.Val().Clock()
+	return time.Date(date.Year(), date.Month(), date.Day(), hour, min, sec, 0, date.Location())
+}
+
+// UnmarshalHBCI unmarshals value into t
+func (t *TimestampDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 1 || len(elements[0]) == 0 {
+		return fmt.Errorf("%T: Malformed marshaled value", t)
+	}
+	t.Date = &DateDataElement{}
+	err = t.Date.UnmarshalHBCI(elements[0])
+	if err != nil {
+		return err
+	}
+	if len(elements) > 1 && len(elements[1]) > 0 {
+		t.Time = &TimeDataElement{}
+		err = t.Time.UnmarshalHBCI(elements[1])
+		if err != nil {
+			return err
+		}
+	}
+	t.DataElement = NewGroupDataElementGroup(timestampGDEG, 2, t)
+	return nil
+}
+
 // NewAddress creates a new AddressDataElement from address
 func NewAddress(address domain.Address) *AddressDataElement {
 	a := &AddressDataElement{
diff --git a/segment/account_balance.go b/segment/account_balance.go
index eb75ea1..899cf62 100644
--- a/segment/account_balance.go
+++ b/segment/account_balance.go
@@ -288,8 +288,8 @@ type AccountBalanceResponseSegmentV6 struct {
 	CreditLimit        *element.AmountDataElement
 	AvailableAmount    *element.AmountDataElement
 	UsedAmount         *element.AmountDataElement
-	BookingDate        *element.DateDataElement
-	BookingTime        *element.TimeDataElement
+	Overdraft          *element.AmountDataElement
+	BookingTimestamp   *element.TimestampDataElement
 	DueDate            *element.DateDataElement
 }
 
@@ -321,13 +321,10 @@ func (a *AccountBalanceResponseSegmentV6) AccountBalance() domain.AccountBalance
 		val := used.Val()
 		balance.UsedAmount = &val
 	}
-	if date := a.BookingDate; date != nil {
-		val := date.Val()
+	if timestamp := a.BookingTimestamp; timestamp != nil {
+		val := timestamp.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
-		*balance.BookingDate = addTimeOfDay(*balance.BookingDate, t.Val())
-	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
 		balance.DueDate = &val
@@ -347,8 +344,8 @@ func (a *AccountBalanceResponseSegmentV6) elements() []element.DataElement {
 		a.CreditLimit,
 		a.AvailableAmount,
 		a.UsedAmount,
-		a.BookingDate,
-		a.BookingTime,
+		a.Overdraft,
+		a.BookingTimestamp,
 		a.DueDate,
 	}
 }
@@ -363,8 +360,8 @@ type AccountBalanceResponseSegmentV7 struct {
 	CreditLimit        *element.AmountDataElement
 	AvailableAmount    *element.AmountDataElement
 	UsedAmount         *element.AmountDataElement
-	BookingDate        *element.DateDataElement
-	BookingTime        *element.TimeDataElement
+	Overdraft          *element.AmountDataElement
+	BookingTimestamp   *element.TimestampDataElement
 	DueDate            *element.DateDataElement
 }
 
@@ -396,13 +393,10 @@ func (a *AccountBalanceResponseSegmentV7) AccountBalance() domain.AccountBalance
 		val := used.Val()
 		balance.UsedAmount = &val
 	}
-	if date := a.BookingDate; date != nil {
-		val := date.Val()
+	if timestamp := a.BookingTimestamp; timestamp != nil {
+		val := timestamp.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
-		*balance.BookingDate = addTimeOfDay(*balance.BookingDate, t.Val())
-	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
 		balance.DueDate = &val
@@ -433,13 +427,10 @@ func (a *AccountBalanceResponseSegmentV7) SepaAccountBalance() (domain.SepaAccou
 		val := used.Val()
 		balance.UsedAmount = &val
 	}
-	if date := a.BookingDate; date != nil {
-		val := date.Val()
+	if timestamp := a.BookingTimestamp; timestamp != nil {
+		val := timestamp.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
-		*balance.BookingDate = addTimeOfDay(*balance.BookingDate, t.Val())
-	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
 		balance.DueDate = &val
@@ -456,8 +447,8 @@ func (a *AccountBalanceResponseSegmentV7) elements() []element.DataElement {
 		a.CreditLimit,
 		a.AvailableAmount,
 		a.UsedAmount,
-		a.BookingDate,
-		a.BookingTime,
+		a.Overdraft,
+		a.BookingTimestamp,
 		a.DueDate,
 	}
 }
@@ -472,8 +463,8 @@ type AccountBalanceResponseSegmentV8 struct {
 	CreditLimit        *element.AmountDataElement
 	AvailableAmount    *element.AmountDataElement
 	UsedAmount         *element.AmountDataElement
-	BookingDate        *element.DateDataElement
-	BookingTime        *element.TimeDataElement
+	Overdraft          *element.AmountDataElement
+	BookingTimestamp   *element.TimestampDataElement
 	DueDate            *element.DateDataElement
 	SeizableAfterMonth *element.AmountDataElement
 }
@@ -506,13 +497,10 @@ func (a *AccountBalanceResponseSegmentV8) AccountBalance() domain.AccountBalance
 		val := used.Val()
 		balance.UsedAmount = &val
 	}
-	if date := a.BookingDate; date != nil {
-		val := date.Val()
+	if timestamp := a.BookingTimestamp; timestamp != nil {
+		val := timestamp.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
-		*balance.BookingDate = addTimeOfDay(*balance.BookingDate, t.Val())
-	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
 		balance.DueDate = &val
@@ -543,13 +531,10 @@ func (a *AccountBalanceResponseSegmentV8) SepaAccountBalance() (domain.SepaAccou
 		val := used.Val()
 		balance.UsedAmount = &val
 	}
-	if date := a.BookingDate; date != nil {
-		val := date.Val()
+	if timestamp := a.BookingTimestamp; timestamp != nil {
+		val := timestamp.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
-		*balance.BookingDate = addTimeOfDay(*balance.BookingDate, t.Val())
-	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
 		balance.DueDate = &val
@@ -570,8 +555,8 @@ func (a *AccountBalanceResponseSegmentV8) elements() []element.DataElement {
 		a.CreditLimit,
 		a.AvailableAmount,
 		a.UsedAmount,
-		a.BookingDate,
-		a.BookingTime,
+		a.Overdraft,
+		a.BookingTimestamp,
 		a.DueDate,
 		a.SeizableAfterMonth,
 	}
diff --git a/segment/account_balance_unmarshaler.go b/segment/account_balance_unmarshaler.go
index 2b0871a..8f5fd68 100644
--- a/segment/account_balance_unmarshaler.go
+++ b/segment/account_balance_unmarshaler.go
@@ -10,10 +10,10 @@ import (
 )
 
 var (
-	_	BankSegment	= &AccountBalanceResponseSegmentV5{}
-	_	BankSegment	= &AccountBalanceResponseSegmentV6{}
-	_	BankSegment	= &AccountBalanceResponseSegmentV7{}
-	_	BankSegment	= &AccountBalanceResponseSegmentV8{}
+	_ BankSegment = &AccountBalanceResponseSegmentV5{}
+	_ BankSegment = &AccountBalanceResponseSegmentV6{}
+	_ BankSegment = &AccountBalanceResponseSegmentV7{}
+	_ BankSegment = &AccountBalanceResponseSegmentV8{}
 )
 
 func init() {
@@ -237,17 +237,17 @@ func (a *AccountBalanceResponseSegmentV6) UnmarshalHBCI(value []byte) error {
 		}
 	}
 	if len(elements) > 9 && len(elements[9]) > 0 {
-		a.BookingDate = &element.DateDataElement{}
-		err = a.BookingDate.UnmarshalHBCI(elements[9])
+		a.Overdraft = &element.AmountDataElement{}
+		err = a.Overdraft.UnmarshalHBCI(elements[9])
 		if err != nil {
-			return fmt.Errorf("error unmarshaling BookingDate: %w", err)
+			return fmt.Errorf("error unmarshaling Overdraft: %w", err)
 		}
 	}
 	if len(elements) > 10 && len(elements[10]) > 0 {
-		a.BookingTime = &element.TimeDataElement{}
-		err = a.BookingTime.UnmarshalHBCI(elements[10])
+		a.BookingTimestamp = &element.TimestampDataElement{}
+		err = a.BookingTimestamp.UnmarshalHBCI(elements[10])
 		if err != nil {
-			return fmt.Errorf("error unmarshaling BookingTime: %w", err)
+			return fmt.Errorf("error unmarshaling BookingTimestamp: %w", err)
 		}
 	}
 	if len(elements) > 11 && len(elements[11]) > 0 {
@@ -334,17 +334,17 @@ func (a *AccountBalanceResponseSegmentV7) UnmarshalHBCI(value []byte) error {
 		}
 	}
 	if len(elements) > 9 && len(elements[9]) > 0 {
-		a.BookingDate = &element.DateDataElement{}
-		err = a.BookingDate.UnmarshalHBCI(elements[9])
+		a.Overdraft = &element.AmountDataElement{}
+		err = a.Overdraft.UnmarshalHBCI(elements[9])
 		if err != nil {
-			return fmt.Errorf("error unmarshaling BookingDate: %w", err)
+			return fmt.Errorf("error unmarshaling Overdraft: %w", err)
 		}
 	}
 	if len(elements) > 10 && len(elements[10]) > 0 {
-		a.BookingTime = &element.TimeDataElement{}
-		err = a.BookingTime.UnmarshalHBCI(elements[10])
+		a.BookingTimestamp = &element.TimestampDataElement{}
+		err = a.BookingTimestamp.UnmarshalHBCI(elements[10])
 		if err != nil {
-			return fmt.Errorf("error unmarshaling BookingTime: %w", err)
+			return fmt.Errorf("error unmarshaling BookingTimestamp: %w", err)
 		}
 	}
 	if len(elements) > 11 && len(elements[11]) > 0 {
@@ -431,17 +431,17 @@ func (a *AccountBalanceResponseSegmentV8) UnmarshalHBCI(value []byte) error {
 		}
 	}
 	if len(elements) > 9 && len(elements[9]) > 0 {
-		a.BookingDate = &element.DateDataElement{}
-		err = a.BookingDate.UnmarshalHBCI(elements[9])
+		a.Overdraft = &element.AmountDataElement{}
+		err = a.Overdraft.UnmarshalHBCI(elements[9])
 		if err != nil {
-			return fmt.Errorf("error unmarshaling BookingDate: %w", err)
+			return fmt.Errorf("error unmarshaling Overdraft: %w", err)
 		}
 	}
 	if len(elements) > 10 && len(elements[10]) > 0 {
-		a.BookingTime = &element.TimeDataElement{}
-		err = a.BookingTime.UnmarshalHBCI(elements[10])
+		a.BookingTimestamp = &element.TimestampDataElement{}
+		err = a.BookingTimestamp.UnmarshalHBCI(elements[10])
 		if err != nil {
-			return fmt.Errorf("error unmarshaling BookingTime: %w", err)
+			return fmt.Errorf("error unmarshaling BookingTimestamp: %w", err)
 		}
 	}
 	if len(elements) > 11 && len(elements[11]) > 0 {
-- 
2.43.0


From 98e8af0a3c600d2252bbb0cda6531d1cd50c875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 64/96] fix: reject malformed amounts and currencies in MT940
 statements instead of reporting other amounts

---
 swift/mt940.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index f07ad8c..5300dd3 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -173,8 +173,10 @@ func (b *BalanceTag) Unmarshal(value []byte) error {
 	}
 	b.BookingDate = domain.NewShortDate(date)
 	b.Currency = string(buf.Next(3))
-	amountString := strings.Replace(buf.String(), ",", ".", 1)
-	amount, err := strconv.ParseFloat(amountString, 64)
+	if len(b.Currency) != 3 || !isAlpha(b.Currency) {
+		return fmt.Errorf("%T: malformed currency %q", b, b.Currency)
+	}
+	amount, err := parseAmount(buf.String())
 	if err != nil {
 		return errors.Wrap(err, "MT940 Balance tag: error unmarshaling amount")
 	}
@@ -262,12 +264,14 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	default:
 		return fmt.Errorf("%T: malformed debit/credit indicator %q", t, string(runes))
 	}
+	if !isAlpha(t.CurrencyKind) {
+		return fmt.Errorf("%T: malformed currency kind %q", t, t.CurrencyKind)
+	}
 	amountBytes, err := buf.ReadBytes('N')
 	if err != nil {
 		return err
 	}
-	amountBytes = bytes.Replace(amountBytes[:len(amountBytes)-1], []byte(","), []byte("."), 1)
-	amount, err := strconv.ParseFloat(string(amountBytes), 64)
+	amount, err := parseAmount(string(amountBytes[:len(amountBytes)-1]))
 	if err != nil {
 		return errors.Wrap(err, "MT940 Transaction tag: error unmarshaling amount")
 	}
@@ -328,6 +332,27 @@ func parseBookingDate(value []byte, valutaDate time.Time) (time.Time, error) {
 	return bookingDate, nil
 }
 
+// isAlpha reports whether value consists of letters only.
+func isAlpha(value string) bool {
+	for _, r := range value {
+		if (r < 'A' || 'Z' < r) && (r < 'a' || 'z' < r) {
+			return false
+		}
+	}
+	return true
+}
+
+// parseAmount parses an unsigned amount with a decimal comma. Other notations
+// of numbers, like signs or exponents, are no amounts.
+func parseAmount(value string) (float64, error) {
+	for _, r := range value {
+		if !strings.ContainsRune("0123456789,.", r) {
+			return 0, fmt.Errorf("malformed amount %q", value)
+		}
+	}
+	return strconv.ParseFloat(strings.Replace(value, ",", ".", 1), 64)
+}
+
 func absDuration(d time.Duration) time.Duration {
 	if d < 0 {
 		return -d
-- 
2.43.0


From 2b00b40eb839f88608650045c6954f13ad7bab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:29 +0000
Subject: [PATCH 65/96] fix: accept unstructured details in MT940 statements

---
 swift/element.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/swift/element.go b/swift/element.go
index c07c848..a739aa8 100644
--- a/swift/element.go
+++ b/swift/element.go
@@ -150,8 +150,10 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 		return err
 	}
 	c.Tag = tag.ID
-	if len(tag.Value) < 3 {
-		return fmt.Errorf("%T: Malformed marshaled value", c)
+	if !hasTransactionCode(tag.Value) {
+		// The structured form is optional, this is free text.
+		c.Purpose = freeText(tag.Value)
+		return nil
 	}
 	tID, err := strconv.Atoi(charset.ToUTF8(tag.Value[:3]))
 	if err != nil {
@@ -169,6 +171,10 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 		}
 	}
 
+	if len(fields) == 0 {
+		c.Purpose = freeText(tag.Value[3:])
+	}
+
 	getFieldValue := func(currentFieldKeyIndex, nextFieldKeyIndex int) string {
 		return charset.ToUTF8(
 			marshaledFields[currentFieldKeyIndex+3 : nextFieldKeyIndex],
@@ -215,6 +221,31 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 	return nil
 }
 
+// hasTransactionCode reports whether value starts with the three digits of a
+// transaction code.
+func hasTransactionCode(value []byte) bool {
+	if len(value) < 3 {
+		return false
+	}
+	for _, b := range value[:3] {
+		if b < '0' || '9' < b {
+			return false
+		}
+	}
+	return true
+}
+
+// freeText returns the lines of an unstructured field.
+func freeText(value []byte) []string {
+	var lines []string
+	for _, line := range bytes.Split(value, []byte{'\r', '\n'}) {
+		if len(line) != 0 {
+			lines = append(lines, charset.ToUTF8(line))
+		}
+	}
+	return lines
+}
+
 type fieldKeyIndex struct {
 	fieldKey []byte
 	index    int
-- 
2.43.0


From e0568baad7da25f710516910f432b22db61af004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 66/96] fix: accept the undated balance before the first MT940
 statement of an account

---
 swift/mt940.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 5300dd3..07d8657 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -166,12 +166,16 @@ func (b *BalanceTag) Unmarshal(value []byte) error {
 	if b.DebitCreditIndicator != "C" && b.DebitCreditIndicator != "D" {
 		return fmt.Errorf("%T: malformed debit/credit indicator %q", b, b.DebitCreditIndicator)
 	}
-	dateBytes := buf.Next(6)
-	date, err := parseDate(dateBytes, time.Now().Year())
-	if err != nil {
-		return errors.WithMessage(err, "unmarshal balance tag: parsing booking date")
+	if firstStatement := []byte("000000"); bytes.HasPrefix(buf.Bytes(), firstStatement) {
+		// the balance before the first statement of an account has no date
+		buf.Next(len(firstStatement))
+	} else {
+		date, err := parseDate(buf.Next(6), time.Now().Year())
+		if err != nil {
+			return errors.WithMessage(err, "unmarshal balance tag: parsing booking date")
+		}
+		b.BookingDate = domain.NewShortDate(date)
 	}
-	b.BookingDate = domain.NewShortDate(date)
 	b.Currency = string(buf.Next(3))
 	if len(b.Currency) != 3 || !isAlpha(b.Currency) {
 		return fmt.Errorf("%T: malformed currency %q", b, b.Currency)
-- 
2.43.0


From c2824839d8931d211bdf909247b35aed1f2317ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 67/96] fix: report an MT940 statement that is cut off after
 the name of a tag

---
 swift/tag_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swift/tag_extractor.go b/swift/tag_extractor.go
index e740f00..a2ce846 100644
--- a/swift/tag_extractor.go
+++ b/swift/tag_extractor.go
@@ -88,6 +88,9 @@ func (t *tagExtractor) Extract() ([][]byte, error) {
 			}
 		}
 	}
+	if len(current) != 0 {
+		return nil, fmt.Errorf("%T: unexpected end of input: last tag is not terminated\n(%q)", t, t.rawSwiftMessage)
+	}
 	result := make([][]byte, len(t.extractedTags))
 	copy(result, t.extractedTags)
 	return result, nil
-- 
2.43.0


From 3532eba0f0c86492dc461b5d9835ffdc68b7029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 68/96] fix: MT940 transactions without booking date lose the
 first letter of their indicator

---
 swift/mt940.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 07d8657..d1b8d79 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -230,8 +230,8 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	if err != nil {
 		return err
 	}
+	buf.UnreadRune()
 	if unicode.IsDigit(r) {
-		buf.UnreadRune()
 		dateBytes = buf.Next(4)
 		date, err = parseBookingDate(dateBytes, t.ValutaDate.Time)
 		if err != nil {
-- 
2.43.0


From 7e5200bbfee9d71191e8955de9fc7d818d5a3dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 69/96] fix: IBANs which are too short for their country are
 accepted

---
 iban/iban.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iban/iban.go b/iban/iban.go
index 973efe0..944d0d9 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -66,6 +66,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 	if len(BBAN) > (ibanLen - 4) {
 		return "", fmt.Errorf("malformed BBAN: must have at max %d characters", ibanLen)
 	}
+	if ok && len(BBAN) < (ibanLen-4) {
+		return "", fmt.Errorf("malformed BBAN: must have %d characters", ibanLen-4)
+	}
 
 	BBAN = strings.ToUpper(BBAN)
 
@@ -141,6 +144,9 @@ func (i IBAN) Valid() bool {
 	}
 	countryCode := i.CountryCode()
 	countryCode = strings.ToUpper(countryCode)
+	if ibanLen, ok := ibanMaxLengthForCountry[countryCode]; ok && len(i) != ibanLen {
+		return false
+	}
 	bban := i.BBAN()
 	bban = strings.ToUpper(bban)
 
-- 
2.43.0


From f4beca688d22056a89839a4e76000638bc68f72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 70/96] fix: IBANs with proof numbers which are never computed
 are valid

---
 iban/iban.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iban/iban.go b/iban/iban.go
index 944d0d9..dec9a75 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -142,6 +142,9 @@ func (i IBAN) Valid() bool {
 	if !consistsOf(i.CountryCode(), letters) || !consistsOf(i.ProofNumber(), digits) || !consistsOf(i.BBAN(), digits+letters) {
 		return false
 	}
+	if i.ProofNumber() < "02" || i.ProofNumber() > "98" {
+		return false
+	}
 	countryCode := i.CountryCode()
 	countryCode = strings.ToUpper(countryCode)
 	if ibanLen, ok := ibanMaxLengthForCountry[countryCode]; ok && len(i) != ibanLen {
-- 
2.43.0


From 27638d21778ead710e0ad2ccb7a7a196dd26b367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 71/96] fix: response bodies are never closed, connections of
 failed answers leak

---
 dialog/dialog.go                 |  1 +
 transport/https/https.go         |  6 +++++-
 transport/middleware/encoding.go | 10 ++++++++--
 transport/middleware/logging.go  |  1 +
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 766e785..e3fb055 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -634,6 +634,7 @@ func (d *dialog) request(clientMessage message.ClientMessage) (message.BankMessa
 	if err != nil {
 		return nil, fmt.Errorf("error executing Transport request: %v", err)
 	}
+	defer response.Body.Close()
 	response, err = transport.ReadResponse(bufio.NewReader(response.Body), response.Request)
 	if err != nil {
 		return nil, fmt.Errorf("error reading response from Transport: %v", err)
diff --git a/transport/https/https.go b/transport/https/https.go
index f28aff2..b6189e6 100644
--- a/transport/https/https.go
+++ b/transport/https/https.go
@@ -55,7 +55,11 @@ func (h *HTTPSBase64Transport) Do(request *transport.Request) (*transport.Respon
 	} else {
 		reader = httpResponse.Body
 	}
-	return &transport.Response{Body: io.NopCloser(reader), Request: request}, nil
+	body := struct {
+		io.Reader
+		io.Closer
+	}{reader, httpResponse.Body}
+	return &transport.Response{Body: body, Request: request}, nil
 }
 
 // New returns a HTTPSTransport. It sets http.DefaultClient as http.Client to
diff --git a/transport/middleware/encoding.go b/transport/middleware/encoding.go
index fa37b21..da3302b 100644
--- a/transport/middleware/encoding.go
+++ b/transport/middleware/encoding.go
@@ -32,7 +32,7 @@ func UTF8Encoding(encoding encoding.Encoding) transport.Middleware {
 			}
 			decodingReader := encoding.NewDecoder().Reader(response.Body)
 			decodedResponse := response
-			decodedResponse.Body = io.NopCloser(decodingReader)
+			decodedResponse.Body = decodedBody{decodingReader, response.Body}
 			return decodedResponse, nil
 		})
 	}
@@ -64,8 +64,14 @@ func Base64Encoding(encoding *base64.Encoding) transport.Middleware {
 			}
 			decodingReader := base64.NewDecoder(encoding, response.Body)
 			decodedResponse := response
-			decodedResponse.Body = io.NopCloser(decodingReader)
+			decodedResponse.Body = decodedBody{decodingReader, response.Body}
 			return decodedResponse, nil
 		})
 	}
 }
+
+// decodedBody reads the decoded content and closes the encoded body.
+type decodedBody struct {
+	io.Reader
+	io.Closer
+}
diff --git a/transport/middleware/logging.go b/transport/middleware/logging.go
index 6639671..f53b650 100644
--- a/transport/middleware/logging.go
+++ b/transport/middleware/logging.go
@@ -39,6 +39,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 				logger.Printf("Error executing request:\n%v", err)
 				return nil, err
 			}
+			defer res.Body.Close()
 			var responseBuf bytes.Buffer
 			marshaledResponse, err := io.ReadAll(io.TeeReader(res.Body, &responseBuf))
 			if err != nil {
-- 
2.43.0


From 41e6293a30ba0b9efccc283dd7620833631bd0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 72/96] fix: UTF8Encoding drops an incomplete character at the
 end of a request

---
 transport/middleware/encoding.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/transport/middleware/encoding.go b/transport/middleware/encoding.go
index da3302b..278a2d8 100644
--- a/transport/middleware/encoding.go
+++ b/transport/middleware/encoding.go
@@ -18,14 +18,16 @@ import (
 func UTF8Encoding(encoding encoding.Encoding) transport.Middleware {
 	return func(t transport.Transport) transport.Transport {
 		return transport.Func(func(req *transport.Request) (*transport.Response, error) {
-			var buf bytes.Buffer
-			encodingWriter := encoding.NewEncoder().Writer(&buf)
-			_, err := io.Copy(encodingWriter, req.Body)
+			body, err := io.ReadAll(req.Body)
+			if err != nil {
+				return nil, err
+			}
+			encodedBody, err := encoding.NewEncoder().Bytes(body)
 			if err != nil {
 				return nil, err
 			}
 			encodedRequest := req
-			encodedRequest.Body = io.NopCloser(&buf)
+			encodedRequest.Body = io.NopCloser(bytes.NewReader(encodedBody))
 			response, err := t.Do(encodedRequest)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 7d151ad67939227c1db421091669301a3c8408f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 73/96] fix: a branch without HBCI access hides the access data
 of its bank

---
 bankinfo/bank_info.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bankinfo/bank_info.go b/bankinfo/bank_info.go
index b8dd06b..e657c03 100644
--- a/bankinfo/bank_info.go
+++ b/bankinfo/bank_info.go
@@ -19,11 +19,12 @@ const (
 )
 
 // FindByBankID returns the BankInfo found for the provided bankID. If no value
-// is found an zero value is returned.
+// is found an zero value is returned. If there are several entries for the
+// bankID, one with a URL is preferred.
 func FindByBankID(bankID string) BankInfo {
 	var bankInfo BankInfo
 	for _, entry := range data {
-		if entry.BankID == bankID {
+		if entry.BankID == bankID && (entry.URL != "" || bankInfo.URL == "") {
 			bankInfo = entry
 		}
 	}
-- 
2.43.0


From 2bc6e30b20fc544a93c2b17f146ae0e76c6d0722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 74/96] fix: bank data with quotes or backslashes generates
 invalid Go code

---
 cmd/bankdata_parser/bankdata_parser.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/bankdata_parser/bankdata_parser.go b/cmd/bankdata_parser/bankdata_parser.go
index 684415f..386fff9 100644
--- a/cmd/bankdata_parser/bankdata_parser.go
+++ b/cmd/bankdata_parser/bankdata_parser.go
@@ -81,14 +81,14 @@ package bankinfo
 
 var data = []BankInfo{
 	{{range $element := .}}{
-		BankID: "{{.BankID}}",
-		BIC: "{{.BIC}}",
-		VersionNumber: "{{.VersionNumber}}",
-		URL: "{{.URL}}",
-		VersionName: "{{.VersionName}}",
-		Institute: {{.Institute | printf "%q" }},
-		City: "{{.City}}",
-		LastChanged: "{{.LastChanged}}",
+		BankID: {{.BankID | printf "%q"}},
+		BIC: {{.BIC | printf "%q"}},
+		VersionNumber: {{.VersionNumber | printf "%q"}},
+		URL: {{.URL | printf "%q"}},
+		VersionName: {{.VersionName | printf "%q"}},
+		Institute: {{.Institute | printf "%q"}},
+		City: {{.City | printf "%q"}},
+		LastChanged: {{.LastChanged | printf "%q"}},
 	},
 	{{end}}
 }`
-- 
2.43.0


From 633f7b596dad335e15747e6ff535e729b929e204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 75/96] fix: a client without URL is created for banks that are
 not in the directory

---
 client/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client.go b/client/client.go
index 0a6c2df..d77c55e 100644
--- a/client/client.go
+++ b/client/client.go
@@ -58,6 +58,9 @@ func New(config Config) (*Client, error) {
 	} else {
 		url = bankInfo.URL
 	}
+	if url == "" && config.Transport == nil {
+		return nil, fmt.Errorf("no URL found for bank ID %q", config.BankID)
+	}
 	if config.HBCIVersion > 0 {
 		version, err := config.hbciVersion()
 		if err != nil {
-- 
2.43.0


From 131c7389169119784cf3ca94d44533675bdf981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 76/96] fix: dates as keys of JSON objects are written with a
 time and can not be read

---
 domain/time.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/domain/time.go b/domain/time.go
index a1000db..41c6d25 100644
--- a/domain/time.go
+++ b/domain/time.go
@@ -53,6 +53,13 @@ func (s ShortDate) MarshalText() ([]byte, error) {
 	return []byte(s.Format("2006-01-02")), nil
 }
 
+// AppendText appends the date in its text representation to b. It takes
+// precedence over the method of the embedded time, which would add the time of
+// day.
+func (s ShortDate) AppendText(b []byte) ([]byte, error) {
+	return s.AppendFormat(b, "2006-01-02"), nil
+}
+
 // UnmarshalText unmarshals text into a ShortDate
 func (s *ShortDate) UnmarshalText(text []byte) error {
 	time, err := time.Parse("2006-01-02", string(text))
-- 
2.43.0


From 361eac872cdce5f701cadda506af4ca21bd45d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 77/96] fix: columns of printed results run into each other

---
 domain/account_balance.go     | 8 ++++----
 domain/account_information.go | 4 ++--
 domain/account_transaction.go | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/domain/account_balance.go b/domain/account_balance.go
index a7459f0..7fbb788 100644
--- a/domain/account_balance.go
+++ b/domain/account_balance.go
@@ -42,7 +42,7 @@ func (ab AccountBalances) String() string {
 		buf.WriteString("\n")
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 20, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 20, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	if containsEarmarkedBalances {
@@ -79,7 +79,7 @@ func (a AccountBalance) String() string {
 	buf.WriteString("\t")
 	buf.WriteString(fmt.Sprintf("%.2f %s", a.BookedBalance.Amount.Amount, a.BookedBalance.Amount.Currency))
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 24, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 24, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
@@ -120,7 +120,7 @@ func (ab SepaAccountBalances) String() string {
 		buf.WriteString("\n")
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 20, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 20, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	if containsEarmarkedBalances {
@@ -158,7 +158,7 @@ func (a SepaAccountBalance) String() string {
 	buf.WriteString("\t")
 	buf.WriteString(fmt.Sprintf("%.2f %s", a.BookedBalance.Amount.Amount, a.BookedBalance.Amount.Currency))
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 24, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 24, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
diff --git a/domain/account_information.go b/domain/account_information.go
index ca7976a..b15d388 100644
--- a/domain/account_information.go
+++ b/domain/account_information.go
@@ -35,7 +35,7 @@ func (ai AccountInfos) String() string {
 		buf.WriteString("\n")
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 20, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 20, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
@@ -77,7 +77,7 @@ func (a AccountInformation) String() string {
 	}
 	buf.WriteString("\n")
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 20, 1, 0, ' ', tabwriter.Debug)
+	tabw := tabwriter.NewWriter(&out, 20, 1, 1, ' ', tabwriter.Debug)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
diff --git a/domain/account_transaction.go b/domain/account_transaction.go
index c85862f..ae03b86 100644
--- a/domain/account_transaction.go
+++ b/domain/account_transaction.go
@@ -55,7 +55,7 @@ func (at AccountTransactions) String() string {
 		)
 	}
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 24, 1, 0, ' ', tabwriter.TabIndent)
+	tabw := tabwriter.NewWriter(&out, 24, 1, 1, ' ', tabwriter.TabIndent)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
@@ -93,7 +93,7 @@ func (a AccountTransaction) String() string {
 	buf.WriteString("\t")
 	buf.WriteString(a.Purpose)
 	var out bytes.Buffer
-	tabw := tabwriter.NewWriter(&out, 0, 8, 0, '\t', 0)
+	tabw := tabwriter.NewWriter(&out, 0, 8, 1, '\t', 0)
 	fmt.Fprint(tabw, buf.String())
 	tabw.Flush()
 	return out.String()
-- 
2.43.0


From 1ae6a569155112baa6387b82e71c7ddecf33ce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 78/96] fix: the challenge of a TAN response is decoded into
 its job reference

---
 segment/tan.go             |  4 ++++
 segment/tan_unmarshaler.go | 36 ++++++++++++++++++++++++++++++++----
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/segment/tan.go b/segment/tan.go
index ce6b01c..217c9a2 100644
--- a/segment/tan.go
+++ b/segment/tan.go
@@ -154,5 +154,9 @@ func (t *TanResponseSegmentV6) elements() []element.DataElement {
 		t.TANProcess,
 		t.JobHash,
 		t.JobReference,
+		t.Challenge,
+		t.ChallengeHHD_UC,
+		t.TANMediumDescription,
+		t.ChallengeExpiryDate,
 	}
 }
diff --git a/segment/tan_unmarshaler.go b/segment/tan_unmarshaler.go
index 574ea36..f0eb154 100644
--- a/segment/tan_unmarshaler.go
+++ b/segment/tan_unmarshaler.go
@@ -72,13 +72,41 @@ func (t *TanResponseSegmentV6) UnmarshalHBCI(value []byte) error {
 	}
 	if len(elements) > 3 && len(elements[3]) > 0 {
 		t.JobReference = &element.AlphaNumericDataElement{}
-		if len(elements)+1 > 3 {
-			err = t.JobReference.UnmarshalHBCI(bytes.Join(elements[3:], []byte("+")))
+		err = t.JobReference.UnmarshalHBCI(elements[3])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling JobReference: %w", err)
+		}
+	}
+	if len(elements) > 4 && len(elements[4]) > 0 {
+		t.Challenge = &element.AlphaNumericDataElement{}
+		err = t.Challenge.UnmarshalHBCI(elements[4])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling Challenge: %w", err)
+		}
+	}
+	if len(elements) > 5 && len(elements[5]) > 0 {
+		t.ChallengeHHD_UC = &element.BinaryDataElement{}
+		err = t.ChallengeHHD_UC.UnmarshalHBCI(elements[5])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling ChallengeHHD_UC: %w", err)
+		}
+	}
+	if len(elements) > 6 && len(elements[6]) > 0 {
+		t.TANMediumDescription = &element.AlphaNumericDataElement{}
+		err = t.TANMediumDescription.UnmarshalHBCI(elements[6])
+		if err != nil {
+			return fmt.Errorf("error unmarshaling TANMediumDescription: %w", err)
+		}
+	}
+	if len(elements) > 7 && len(elements[7]) > 0 {
+		t.ChallengeExpiryDate = &element.TanChallengeExpiryDate{}
+		if len(elements)+1 > 7 {
+			err = t.ChallengeExpiryDate.UnmarshalHBCI(bytes.Join(elements[7:], []byte("+")))
 		} else {
-			err = t.JobReference.UnmarshalHBCI(elements[3])
+			err = t.ChallengeExpiryDate.UnmarshalHBCI(elements[7])
 		}
 		if err != nil {
-			return fmt.Errorf("error unmarshaling JobReference: %w", err)
+			return fmt.Errorf("error unmarshaling ChallengeExpiryDate: %w", err)
 		}
 	}
 	return nil
-- 
2.43.0


From 7b0eaa006e9113569bd0ebd732b8d21c1fee52b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 79/96] fix: amounts such as NaN, Inf or 0x1p4 are accepted

---
 element/data_element.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/element/data_element.go b/element/data_element.go
index a937eb3..6b5ef42 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -426,6 +426,10 @@ func (f *FloatDataElement) MarshalHBCI() ([]byte, error) {
 // UnmarshalHBCI unmarshals value into f
 func (f *FloatDataElement) UnmarshalHBCI(value []byte) error {
 	str := strings.Replace(charset.ToUTF8(value), ",", ".", 1)
+	// ParseFloat knows more notations than HBCI, infinity among them.
+	if strings.Trim(str, "-.0123456789") != "" {
+		return fmt.Errorf("malformed number: %q", value)
+	}
 	val, err := strconv.ParseFloat(str, 64)
 	if err != nil {
 		return err
-- 
2.43.0


From 7509f3dcec5ce9c957bf12fa12a9921685a6daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 80/96] fix: a bank with more than one communication access
 fails the whole response

---
 element/communication_access.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/element/communication_access.go b/element/communication_access.go
index d1ddec6..3bc8bcf 100644
--- a/element/communication_access.go
+++ b/element/communication_access.go
@@ -47,7 +47,12 @@ type CommunicationParameterDataElement struct {
 
 // UnmarshalHBCI unmarshals value into c
 func (c *CommunicationParameterDataElement) UnmarshalHBCI(value []byte) error {
-	elements, err := ExtractElements(value)
+	// A bank sends one element per access, of which the first one is kept.
+	params, err := splitDataElements(value)
+	if err != nil {
+		return err
+	}
+	elements, err := ExtractElements(params[0])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e0f3d4e6806de563fffa763a0934722b5148763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 81/96] fix: status entries about a whole message are reported
 as segment acknowledgements

---
 segment/status_protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index ab7ac85..375be0e 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -138,6 +138,8 @@ func (s *StatusProtocolResponseSegmentV3) Status() domain.StatusAcknowledgement
 	ack := s.Acknowledgement.Val()
 	if s.ReferencingMessage != nil {
 		ack.ReferencingMessage = s.ReferencingMessage.Val()
+	}
+	if s.ReferencingSegment != nil {
 		ack.ReferencingSegmentNumber = s.ReferencingSegment.Val()
 		ack.Type = domain.SegmentAcknowledgement
 	} else {
@@ -178,6 +180,8 @@ func (s *StatusProtocolResponseSegmentV4) Status() domain.StatusAcknowledgement
 	ack := s.Acknowledgement.Val()
 	if s.ReferencingMessage != nil {
 		ack.ReferencingMessage = s.ReferencingMessage.Val()
+	}
+	if s.ReferencingSegment != nil {
 		ack.ReferencingSegmentNumber = s.ReferencingSegment.Val()
 		ack.Type = domain.SegmentAcknowledgement
 	} else {
-- 
2.43.0


From a465f65c69a82a10e05f2eaecc079b92d31aa6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 82/96] fix: ISO 9796-1 encoding and decoding fail for moduli
 of certain lengths

---
 crypto/iso9796_encoding.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/crypto/iso9796_encoding.go b/crypto/iso9796_encoding.go
index dbfa50b..1ae70d8 100644
--- a/crypto/iso9796_encoding.go
+++ b/crypto/iso9796_encoding.go
@@ -111,11 +111,17 @@ func (i *ISO9796d1Encoding) ProcessBlock(in []byte, inOff, inLen int) ([]byte, e
 }
 
 func (i *ISO9796d1Encoding) encodeBlock(in []byte, inOff, inLen int) ([]byte, error) {
-	block := make([]byte, (i.bitSize+7)/8)
+	size := (i.bitSize + 7) / 8
 	r := i.padBits + 1
 	z := inLen
 	t := (i.bitSize + 13) / 16
 
+	// The redundant message can be one byte longer than the modulus
+	block := make([]byte, size)
+	if size < 2*t {
+		block = make([]byte, 2*t)
+	}
+
 	for i := 0; i < t; i += z {
 		if i > t-z {
 			// System.arraycopy(in, inOff + inLen - (t - i), block, block.length - t, t - i);
@@ -136,15 +142,15 @@ func (i *ISO9796d1Encoding) encodeBlock(in []byte, inOff, inLen int) ([]byte, er
 	block[len(block)-1] = ((block[len(block)-1] << 4) | 0x06)
 
 	maxBit := uint(8 - (i.bitSize-1)%8)
-	offSet := 0
+	offSet := len(block) - size
 
 	if maxBit != 8 {
-		block[0] &= 0xff >> maxBit // block[0] &= 0xff >>> maxBit;
-		block[0] |= 0x80 >> maxBit // block[0] |= 0x80 >>> maxBit;
+		block[offSet] &= 0xff >> maxBit // block[0] &= 0xff >>> maxBit;
+		block[offSet] |= 0x80 >> maxBit // block[0] |= 0x80 >>> maxBit;
 	} else {
-		block[0] = 0x00
-		block[1] |= 0x80
-		offSet = 1
+		block[offSet] = 0x00
+		block[offSet+1] |= 0x80
+		offSet++
 	}
 
 	return i.engine.ProcessBlock(block, offSet, len(block)-offSet), nil
@@ -172,9 +178,12 @@ func (i *ISO9796d1Encoding) decodeBlock(in []byte, inOff, inLen int) ([]byte, er
 	}
 
 	block = i.convertOutputDecryptOnly(iR)
-	if len(block) < 2*t {
+	if iR.BitLen() != i.bitSize-1 {
 		return nil, fmt.Errorf("block too short")
 	}
+	if len(block) < 2*t {
+		block = append(make([]byte, 2*t-len(block)), block...)
+	}
 
 	if (block[len(block)-1] & 0x0f) != 0x6 {
 		return nil, fmt.Errorf("invalid forcing byte in block")
-- 
2.43.0


From 5ed98e49731cf4a72e5c0328b9b977b458ab8500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 83/96] fix: generated unmarshalers of segments without
 elements do not compile

The imports they do not use are left out now.
---
 generator/segment_unmarshaler.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/generator/segment_unmarshaler.go b/generator/segment_unmarshaler.go
index 6705912..b8f85c5 100644
--- a/generator/segment_unmarshaler.go
+++ b/generator/segment_unmarshaler.go
@@ -168,6 +168,12 @@ type segmentTemplateObject struct {
 	counter       int
 }
 
+// UsesBytes reports whether the generated code needs the package bytes
+func (s *segmentTemplateObject) UsesBytes() bool { return len(s.Fields) != 0 }
+
+// UsesElement reports whether the generated code needs the package element
+func (s *segmentTemplateObject) UsesElement() bool { return len(s.Fields) != 0 }
+
 type fieldExtractor struct {
 	file    *ast.File
 	fileSet *token.FileSet
@@ -256,10 +262,14 @@ func init() {
 const packageDeclTemplate = `{{define "package_declaration"}}package {{.Package}}
 
 import (
+{{- if .UsesBytes}}
 	"bytes"
+{{- end}}
 	"fmt"
+{{- if .UsesElement}}
 
 	"github.com/mitch000001/go-hbci/element"
+{{- end}}
 ){{end}}
 `
 
@@ -297,6 +307,19 @@ type versionedSegmentTemplateObject struct {
 	SegmentVersions []*segmentTemplateObject
 }
 
+// UsesBytes reports whether the generated code needs the package bytes
+func (v *versionedSegmentTemplateObject) UsesBytes() bool {
+	for _, version := range v.SegmentVersions {
+		if version.UsesBytes() {
+			return true
+		}
+	}
+	return false
+}
+
+// UsesElement reports whether the generated code needs the package element
+func (v *versionedSegmentTemplateObject) UsesElement() bool { return true }
+
 type versionedSegmentTemplateExecutor struct {
 	templateObject *versionedSegmentTemplateObject
 }
-- 
2.43.0


From 28faf7eeeef803eb37ee42dda56e22799eb52b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 84/96] fix: generator silently ignores elements methods it
 does not understand

The unmarshaler it generated dropped all elements of the segment.
---
 generator/segment_field_visitor.go | 2 ++
 generator/segment_unmarshaler.go   | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/generator/segment_field_visitor.go b/generator/segment_field_visitor.go
index 3fbed78..04fc764 100644
--- a/generator/segment_field_visitor.go
+++ b/generator/segment_field_visitor.go
@@ -14,6 +14,7 @@ type elementVisitor struct {
 	fileSet      *token.FileSet
 	object       *ast.Object
 	fields       []field
+	found        bool
 	err          error
 }
 
@@ -27,6 +28,7 @@ func (e *elementVisitor) Visit(node ast.Node) ast.Visitor {
 						if res, ok := ret.Results[0].(*ast.CompositeLit); ok {
 							resType := nodeToString(res.Type, e.fileSet)
 							if resType == segmentElementsMethodReturnType {
+								e.found = true
 								for _, element := range res.Elts {
 									if sel, ok := element.(*ast.SelectorExpr); ok {
 										pos := sel.Pos()
diff --git a/generator/segment_unmarshaler.go b/generator/segment_unmarshaler.go
index b8f85c5..355738a 100644
--- a/generator/segment_unmarshaler.go
+++ b/generator/segment_unmarshaler.go
@@ -190,6 +190,9 @@ func (f *fieldExtractor) extractFields() ([]field, error) {
 	if elemVisitor.err != nil {
 		return nil, elemVisitor.err
 	}
+	if !elemVisitor.found {
+		return nil, fmt.Errorf("no method %s of segment %q found which only returns a literal of type %s", segmentElementsMethodIdentifier, f.segment.Name, segmentElementsMethodReturnType)
+	}
 
 	sortedFields := sortedFields(elemVisitor.fields)
 	sort.Sort(sortedFields)
-- 
2.43.0


From c97de87e1f0bc216b0e8f89170ad1b5a78d88983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:36 +0000
Subject: [PATCH 85/96] fix: generator accepts unknown versioned segments

---
 generator/segment_unmarshaler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/segment_unmarshaler.go b/generator/segment_unmarshaler.go
index 355738a..a9801b3 100644
--- a/generator/segment_unmarshaler.go
+++ b/generator/segment_unmarshaler.go
@@ -78,6 +78,9 @@ type VersionedSegmentUnmarshalerGenerator struct {
 // Generate generates an unmarhsaler for the segment definition and provides it
 // as an io.Reader
 func (v *VersionedSegmentUnmarshalerGenerator) Generate() (io.Reader, error) {
+	if v.file.Scope.Lookup(v.segment.Name) == nil {
+		return nil, fmt.Errorf("no segment with name %q found", v.segment.Name)
+	}
 	var versionedTemplateObjects []*segmentTemplateObject
 	for _, version := range v.segment.Versions {
 		fieldExtractor := &fieldExtractor{
-- 
2.43.0


From 042833d832336ab7c80e0fc7e632103b61d9c764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 86/96] fix: unmarshaler command reports success for sources it
 can not parse

It also panicked without a source file and replaced an existing unmarshaler by an empty file when the generated code was no Go code.
---
 cmd/unmarshaler/unmarshaler_generator.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cmd/unmarshaler/unmarshaler_generator.go b/cmd/unmarshaler/unmarshaler_generator.go
index f1bf8f9..68ef5d4 100644
--- a/cmd/unmarshaler/unmarshaler_generator.go
+++ b/cmd/unmarshaler/unmarshaler_generator.go
@@ -36,7 +36,8 @@ func main() {
 	fileSet := token.NewFileSet()
 	f, err := parser.ParseFile(fileSet, filename, nil, 0)
 	if err != nil {
-		fmt.Println(err)
+		fmt.Printf("Error while parsing source: %v\n", err)
+		os.Exit(1)
 	}
 	segment := generator.SegmentIdentifier{
 		Name:          segmentName,
@@ -56,20 +57,22 @@ func main() {
 		os.Exit(1)
 	}
 	newFileName := strings.TrimSuffix(filename, ".go") + "_unmarshaler.go"
+	fileSet = token.NewFileSet()
+	newAstFile, err := parser.ParseFile(fileSet, newFileName, generated, parser.ParseComments)
+	if err != nil {
+		fmt.Printf("Error while parsing generated Unmarshaler: %v\n", err)
+		os.Exit(1)
+	}
 	file, err := os.Create(newFileName)
 	if err != nil {
 		fmt.Printf("Error while creating file: %v\n", err)
 		os.Exit(1)
 	}
 	defer file.Close()
-	fileSet = token.NewFileSet()
-	newAstFile, err := parser.ParseFile(fileSet, newFileName, generated, parser.ParseComments)
-	if err != nil {
-		fmt.Println(err)
-	}
 	err = printer.Fprint(file, fileSet, newAstFile)
 	if err != nil {
-		fmt.Println(err)
+		fmt.Printf("Error while writing file: %v\n", err)
+		os.Exit(1)
 	}
 }
 
-- 
2.43.0


From ade849dc46dbdfcc8e3cfdd9913572cf438f6583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 87/96] fix: regenerating the unmarshalers loses allowed
 business transactions

Joining them was part of the generated code, now it is a method the generator
knows about.
---
 generator/segment_field_visitor.go            | 11 ++++++---
 generator/segment_unmarshaler.go              | 24 ++++++++++++-------
 segment/basic_account_information.go          |  8 +++++++
 .../basic_account_information_unmarshaler.go  |  4 ++--
 4 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/generator/segment_field_visitor.go b/generator/segment_field_visitor.go
index 04fc764..dd74fee 100644
--- a/generator/segment_field_visitor.go
+++ b/generator/segment_field_visitor.go
@@ -7,6 +7,7 @@ import (
 )
 
 const segmentElementsMethodIdentifier = "elements"
+const segmentJoinElementsMethodIdentifier = "joinElements"
 const segmentElementsMethodReturnType = "[]element.DataElement"
 
 type elementVisitor struct {
@@ -15,12 +16,16 @@ type elementVisitor struct {
 	object       *ast.Object
 	fields       []field
 	found        bool
+	joinElements bool
 	err          error
 }
 
 func (e *elementVisitor) Visit(node ast.Node) ast.Visitor {
 	if funcDecl, ok := node.(*ast.FuncDecl); ok {
-		if e.isElementsMethod(funcDecl) {
+		if e.isMethod(funcDecl, segmentJoinElementsMethodIdentifier) {
+			e.joinElements = true
+		}
+		if e.isMethod(funcDecl, segmentElementsMethodIdentifier) {
 			bodyStatements := funcDecl.Body.List
 			if len(bodyStatements) == 1 {
 				if ret, ok := bodyStatements[0].(*ast.ReturnStmt); ok {
@@ -67,8 +72,8 @@ func (e *elementVisitor) Visit(node ast.Node) ast.Visitor {
 	return e
 }
 
-func (e *elementVisitor) isElementsMethod(funcDecl *ast.FuncDecl) bool {
-	if funcDecl.Name.Name == segmentElementsMethodIdentifier {
+func (e *elementVisitor) isMethod(funcDecl *ast.FuncDecl, name string) bool {
+	if funcDecl.Name.Name == name {
 		if funcDecl.Recv != nil {
 			if fields := funcDecl.Recv.List; fields != nil {
 				if len(fields) == 1 {
diff --git a/generator/segment_unmarshaler.go b/generator/segment_unmarshaler.go
index a9801b3..41f76e0 100644
--- a/generator/segment_unmarshaler.go
+++ b/generator/segment_unmarshaler.go
@@ -38,7 +38,7 @@ func (s *SegmentUnmarshalerGenerator) Generate() (io.Reader, error) {
 		file:    s.file,
 		fileSet: s.fileSet,
 	}
-	sortedFields, err := fieldExtractor.extractFields()
+	sortedFields, joinElements, err := fieldExtractor.extractFields()
 	if err != nil {
 		return nil, err
 	}
@@ -52,6 +52,7 @@ func (s *SegmentUnmarshalerGenerator) Generate() (io.Reader, error) {
 		NameVar:       nameVar,
 		InterfaceName: s.segment.InterfaceName,
 		Fields:        sortedFields,
+		JoinElements:  joinElements,
 	}
 	executor := &segmentTemplateExecutor{templObj}
 	return executor.execute()
@@ -88,7 +89,7 @@ func (v *VersionedSegmentUnmarshalerGenerator) Generate() (io.Reader, error) {
 			file:    v.file,
 			fileSet: v.fileSet,
 		}
-		sortedFields, err := fieldExtractor.extractFields()
+		sortedFields, joinElements, err := fieldExtractor.extractFields()
 		if err != nil {
 			return nil, err
 		}
@@ -103,6 +104,7 @@ func (v *VersionedSegmentUnmarshalerGenerator) Generate() (io.Reader, error) {
 			InterfaceName: version.InterfaceName,
 			Version:       version.Version,
 			Fields:        sortedFields,
+			JoinElements:  joinElements,
 		}
 		versionedTemplateObjects = append(versionedTemplateObjects, templObj)
 	}
@@ -168,7 +170,10 @@ type segmentTemplateObject struct {
 	InterfaceName string
 	Version       int
 	Fields        []field
-	counter       int
+	// JoinElements is set when the segment has a method to join the elements
+	// of its lists before they are unmarshaled
+	JoinElements bool
+	counter      int
 }
 
 // UsesBytes reports whether the generated code needs the package bytes
@@ -183,23 +188,23 @@ type fieldExtractor struct {
 	segment SegmentIdentifier
 }
 
-func (f *fieldExtractor) extractFields() ([]field, error) {
+func (f *fieldExtractor) extractFields() (fields []field, joinElements bool, err error) {
 	object := f.file.Scope.Lookup(f.segment.Name)
 	if object == nil {
-		return nil, fmt.Errorf("no segment with name %q found", f.segment.Name)
+		return nil, false, fmt.Errorf("no segment with name %q found", f.segment.Name)
 	}
 	elemVisitor := &elementVisitor{fileSet: f.fileSet, object: object, receiverName: f.segment.Name}
 	ast.Walk(elemVisitor, f.file)
 	if elemVisitor.err != nil {
-		return nil, elemVisitor.err
+		return nil, false, elemVisitor.err
 	}
 	if !elemVisitor.found {
-		return nil, fmt.Errorf("no method %s of segment %q found which only returns a literal of type %s", segmentElementsMethodIdentifier, f.segment.Name, segmentElementsMethodReturnType)
+		return nil, false, fmt.Errorf("no method %s of segment %q found which only returns a literal of type %s", segmentElementsMethodIdentifier, f.segment.Name, segmentElementsMethodReturnType)
 	}
 
 	sortedFields := sortedFields(elemVisitor.fields)
 	sort.Sort(sortedFields)
-	return sortedFields, nil
+	return sortedFields, elemVisitor.joinElements, nil
 }
 
 type field struct {
@@ -292,7 +297,8 @@ func ({{.NameVar}} *{{.Name}}) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	{{.NameVar}}.{{.InterfaceName}} = seg{{ range $idx, $field := .Fields }}
+	{{.NameVar}}.{{.InterfaceName}} = seg{{ if .JoinElements }}
+	elements = {{.NameVar}}.joinElements(elements){{ end }}{{ range $idx, $field := .Fields }}
 	if len(elements) > {{ plusOne $idx }} && len(elements[{{ plusOne $idx}}]) > 0 {
 		{{ $.NameVar }}.{{ $field.Name }} = &{{ $field.TypeDecl }}{}
 		{{if len $.Fields | eq (plusOne $idx)}}if len(elements)+1 > {{plusOne $idx}} {
diff --git a/segment/basic_account_information.go b/segment/basic_account_information.go
index c42e427..1db823c 100644
--- a/segment/basic_account_information.go
+++ b/segment/basic_account_information.go
@@ -185,6 +185,10 @@ func (a *AccountInformationV6) Account() domain.AccountInformation {
 	return info
 }
 
+func (a *AccountInformationV6) joinElements(elements [][]byte) [][]byte {
+	return joinAllowedBusinessTransactions(elements, 10)
+}
+
 func (a *AccountInformationV6) elements() []element.DataElement {
 	return []element.DataElement{
 		a.AccountConnection,
@@ -248,6 +252,10 @@ func (a *AccountInformationV7) Account() domain.AccountInformation {
 	return info
 }
 
+func (a *AccountInformationV7) joinElements(elements [][]byte) [][]byte {
+	return joinAllowedBusinessTransactions(elements, 10)
+}
+
 func (a *AccountInformationV7) elements() []element.DataElement {
 	return []element.DataElement{
 		a.AccountConnection,
diff --git a/segment/basic_account_information_unmarshaler.go b/segment/basic_account_information_unmarshaler.go
index 094ef9a..d6f334c 100644
--- a/segment/basic_account_information_unmarshaler.go
+++ b/segment/basic_account_information_unmarshaler.go
@@ -242,7 +242,7 @@ func (a *AccountInformationV6) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	a.Segment = seg
-	elements = joinAllowedBusinessTransactions(elements, 10)
+	elements = a.joinElements(elements)
 	if len(elements) > 1 && len(elements[1]) > 0 {
 		a.AccountConnection = &element.AccountConnectionDataElement{}
 		err = a.AccountConnection.UnmarshalHBCI(elements[1])
@@ -340,7 +340,7 @@ func (a *AccountInformationV7) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	a.Segment = seg
-	elements = joinAllowedBusinessTransactions(elements, 10)
+	elements = a.joinElements(elements)
 	if len(elements) > 1 && len(elements[1]) > 0 {
 		a.AccountConnection = &element.AccountConnectionDataElement{}
 		err = a.AccountConnection.UnmarshalHBCI(elements[1])
-- 
2.43.0


From a3e5b399cfaf34060a17fe2694c53fcbb41d99d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 88/96] fix: a segment asked for by version is decoded from one
 of another version

---
 message/unmarshaler.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/message/unmarshaler.go b/message/unmarshaler.go
index 8f2ca03..e1e7ae5 100644
--- a/message/unmarshaler.go
+++ b/message/unmarshaler.go
@@ -74,7 +74,7 @@ func (u *Unmarshaler) UnmarshalSegment(segmentID string, version int) (segment.S
 	if err != nil {
 		return nil, err
 	}
-	segmentBytes, err := u.extractSegment(segmentID)
+	segmentBytes, err := u.extractSegment(segmentID, version)
 	if err != nil {
 		return nil, err
 	}
@@ -85,16 +85,25 @@ func (u *Unmarshaler) UnmarshalSegment(segmentID string, version int) (segment.S
 	return unmarshaler.(segment.Segment), nil
 }
 
-func (u *Unmarshaler) extractSegment(segmentID string) ([]byte, error) {
+func (u *Unmarshaler) extractSegment(segmentID string, version int) ([]byte, error) {
 	_, err := u.segmentExtractor.Extract()
 	if err != nil {
 		return nil, err
 	}
-	segmentBytes := u.segmentExtractor.FindSegment(segmentID)
-	if segmentBytes == nil {
+	segments := u.segmentExtractor.FindSegments(segmentID)
+	if len(segments) == 0 {
 		return nil, fmt.Errorf("Segment not found in message: %q", segmentID)
 	}
-	return segmentBytes, nil
+	for _, segmentBytes := range segments {
+		header, err := extractSegmentHeader(segmentBytes)
+		if err != nil {
+			return nil, err
+		}
+		if header.Version.Val() == version {
+			return segmentBytes, nil
+		}
+	}
+	return nil, fmt.Errorf("Segment not found in message: %q in version %d", segmentID, version)
 }
 
 // SegmentsByID returns all already unmarshaled segments for the given ID
-- 
2.43.0


From d7d2f37dbb9672a2e18f68d7b9237266e3dbf898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 89/96] fix: the banking command overwrites settings it can not
 read

---
 cmd/banking/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/banking/root.go b/cmd/banking/root.go
index f79c629..d475069 100644
--- a/cmd/banking/root.go
+++ b/cmd/banking/root.go
@@ -137,6 +137,6 @@ func initConfig() {
 			fmt.Println(err)
 			os.Exit(1)
 		}
-		viper.WriteConfigAs(filepath.Join(home, ".banking.yaml"))
+		viper.SafeWriteConfigAs(filepath.Join(home, ".banking.yaml"))
 	}
 }
-- 
2.43.0


From fb4c5f55f6342f89c70fd0b20844083e814955a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 90/96] fix: marshaled segments found in a client message
 differ from the ones sent

---
 message/message.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/message/message.go b/message/message.go
index ec7e9b2..15311b1 100644
--- a/message/message.go
+++ b/message/message.go
@@ -345,7 +345,11 @@ func (b *BasicMessage) FindMarshaledSegment(segmentID string) []byte {
 			continue
 		}
 		if segment.Header().ID.Val() == segmentID {
-			return []byte(segment.String())
+			marshaled, err := segment.MarshalHBCI()
+			if err != nil {
+				return nil
+			}
+			return marshaled
 		}
 	}
 	return nil
@@ -360,7 +364,11 @@ func (b *BasicMessage) FindMarshaledSegments(segmentID string) [][]byte {
 			continue
 		}
 		if segment.Header().ID.Val() == segmentID {
-			segments = append(segments, []byte(segment.String()))
+			marshaled, err := segment.MarshalHBCI()
+			if err != nil {
+				continue
+			}
+			segments = append(segments, marshaled)
 		}
 	}
 	return segments
-- 
2.43.0


From 6607eba52caca02273d3913ec31caf59a6b6aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 91/96] fix: a PIN signature header made for FinTS 3.0 lacks
 its reference number

---
 segment/signature_header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/segment/signature_header.go b/segment/signature_header.go
index 23f5d51..2da597a 100644
--- a/segment/signature_header.go
+++ b/segment/signature_header.go
@@ -173,6 +173,7 @@ func NewPinTanSignatureHeaderSegmentV4(controlReference string, clientSystemId s
 		SecurityApplicationRange: element.NewCode("1", 3, []string{"1", "2"}),
 		SecuritySupplierRole:     element.NewCode("1", 3, []string{"1", "3", "4"}),
 		SecurityID:               element.NewRDHSecurityIdentification(element.SecurityHolderMessageSender, clientSystemId),
+		SecurityRefNumber:        element.NewNumber(0, 16),
 		SecurityDate:             element.NewSecurityDate(element.SecurityTimestamp, time.Now()),
 		HashAlgorithm:            element.NewDefaultHashAlgorithm(),
 		SignatureAlgorithm:       element.NewRDHSignatureAlgorithm(),
-- 
2.43.0


From 1e583315d11dc9e4d9e804f7fe195a8771ededf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:39 +0000
Subject: [PATCH 92/96] fix: allowed business transactions are marshaled as one
 group

---
 element/user_parameter_data.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index 1a448a3..180a149 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -104,6 +104,20 @@ type AllowedBusinessTransactionsDataElement struct {
 	*arrayElementGroup
 }
 
+// MarshalHBCI marshals a into HBCI wire format. The transactions are elements
+// of their own and not parts of a group.
+func (a *AllowedBusinessTransactionsDataElement) MarshalHBCI() ([]byte, error) {
+	transactions := make([][]byte, len(a.array))
+	for i, transaction := range a.array {
+		marshaled, err := transaction.MarshalHBCI()
+		if err != nil {
+			return nil, err
+		}
+		transactions[i] = marshaled
+	}
+	return bytes.Join(transactions, []byte("+")), nil
+}
+
 // UnmarshalHBCI unmarshals value into a
 func (a *AllowedBusinessTransactionsDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := splitDataElements(value)
-- 
2.43.0


From bb0255c105ef4a7cdf659adea86c2c4072ae845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:40 +0000
Subject: [PATCH 93/96] fix: the position of a segment is not found in client
 messages

---
 message/message.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/message/message.go b/message/message.go
index 15311b1..bb87637 100644
--- a/message/message.go
+++ b/message/message.go
@@ -374,14 +374,14 @@ func (b *BasicMessage) FindMarshaledSegments(segmentID string) [][]byte {
 	return segments
 }
 
-// SegmentPosition returns the segment position for the given segmentID
+// SegmentPosition returns the position of the first segment found for
+// segmentID, or -1 if nothing found
 func (b *BasicMessage) SegmentPosition(segmentID string) int {
-	idx := -1
-	// TODO: implement
-	//for i, segment := range b.HBCIMessage.HBCISegments() {
-	//if
-	//}
-	return idx
+	segment := b.FindSegment(segmentID)
+	if segment == nil {
+		return -1
+	}
+	return segment.Header().Position.Val()
 }
 
 // NewBasicSignedMessage creates a new signed message from message
-- 
2.43.0


From a073d5ec8c42d6d3adcfacec4342c9ebc08f4b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:22 +0000
Subject: [PATCH 94/96] fix: keep the days of an open timeframe in all requests
 for transactions

---
 client/client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/client.go b/client/client.go
index d77c55e..788cc92 100644
--- a/client/client.go
+++ b/client/client.go
@@ -175,6 +175,14 @@ func (c *Client) SepaAccountTransactions(account domain.InternationalAccountConn
 }
 
 func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTransactionRequest, error), timeframe domain.Timeframe, continuationReference string) (*swift.MT940Messages, error) {
+	// The days of an open timeframe are set here, so that they are the same in
+	// all requests, even if another day begins in between.
+	if timeframe.StartDate.IsZero() {
+		timeframe.StartDate = domain.NewShortDate(time.Now().AddDate(0, -1, 0))
+	}
+	if timeframe.EndDate.IsZero() {
+		timeframe.EndDate = domain.NewShortDate(time.Now())
+	}
 	accountTransactionRequest, err := requestBuilder()
 	if err != nil {
 		return nil, fmt.Errorf("error building request: %w", err)
-- 
2.43.0


From e0dde2df61bb9a4bbf89b42df77708c677212fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:56 +0000
Subject: [PATCH 95/96] fix: print the account information of all accounts on
 all pages

---
 client/client.go | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/client/client.go b/client/client.go
index 788cc92..a08dc46 100644
--- a/client/client.go
+++ b/client/client.go
@@ -232,22 +232,46 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 // account. If allAccounts is true it will fetch also the information
 // associated with the account.
 func (c *Client) AccountInformation(account domain.AccountConnection, allAccounts bool) error {
-	if err := c.init(); err != nil {
+	accountInformation, err := c.accountInformation(account, allAccounts, "")
+	if err != nil {
 		return err
 	}
+	for _, info := range accountInformation {
+		fmt.Printf("Account Info: %s\n", info)
+	}
+	return nil
+}
+
+func (c *Client) accountInformation(account domain.AccountConnection, allAccounts bool, continuationReference string) ([][]byte, error) {
+	if err := c.init(); err != nil {
+		return nil, err
+	}
 	accountInformationRequest := segment.NewAccountInformationRequestSegmentV1(account, allAccounts)
+	if continuationReference != "" {
+		accountInformationRequest.SetContinuationMark(continuationReference)
+	}
 	decryptedMessage, err := c.pinTanDialog.SendMessage(
 		message.NewHBCIMessage(c.hbciVersion, c.hbciVersion.TanProcess4Request(segment.IdentificationID), accountInformationRequest),
 	)
 	if err != nil {
-		return err
+		return nil, err
+	}
+	accountInformation := decryptedMessage.FindMarshaledSegments("HIKIF")
+	if len(accountInformation) == 0 {
+		return nil, fmt.Errorf("malformed response: expected HIKIF segment")
 	}
-	accountInfoResponse := decryptedMessage.FindMarshaledSegment("HIKIF")
-	if accountInfoResponse != nil {
-		fmt.Printf("Account Info: %s\n", accountInfoResponse)
-		return nil
+	newContinuationReference, err := nextContinuationReference(decryptedMessage, continuationReference)
+	if err != nil {
+		return nil, err
+	}
+	if newContinuationReference == "" {
+		return accountInformation, nil
+	}
+	nextInformation, err := c.accountInformation(account, allAccounts, newContinuationReference)
+	if err != nil {
+		return nil, err
 	}
-	return fmt.Errorf("malformed response: expected HIKIF segment")
+	return append(accountInformation, nextInformation...), nil
 }
 
 // AccountBalances retrieves the balance for the provided account.
-- 
2.43.0


From 59476da6ec04209e47f98d06ad3b80030d2cf804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:50 +0000
Subject: [PATCH 96/96] fix: log every message of the bank and not only the
 first

---
 dialog/dialog.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index e3fb055..0200092 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -292,8 +292,7 @@ func (d *dialog) anonymousInit() (err error) {
 	}
 	d.dialogID = messageHeader.DialogID.Val()
 
-	bankInfoMessage := bankMessage.FindSegment(segment.BankAnnouncementID)
-	if bankInfoMessage != nil {
+	for _, bankInfoMessage := range bankMessage.FindSegments(segment.BankAnnouncementID) {
 		bankInfoSegment := bankInfoMessage.(*segment.BankAnnouncementSegment)
 		internal.Info.Printf("INFO:\n%s\n%s\n", bankInfoSegment.Subject.Val(), bankInfoSegment.Body.Val())
 	}
@@ -389,8 +388,7 @@ func (d *dialog) init() (err error) {
 	}
 	d.dialogID = messageHeader.DialogID.Val()
 
-	bankInfoMessage := decryptedMessage.FindSegment(segment.BankAnnouncementID)
-	if bankInfoMessage != nil {
+	for _, bankInfoMessage := range decryptedMessage.FindSegments(segment.BankAnnouncementID) {
 		bankInfoSegment := bankInfoMessage.(*segment.BankAnnouncementSegment)
 		internal.Info.Printf("INFO:\n%s\n%s\n", bankInfoSegment.Subject.Val(), bankInfoSegment.Body.Val())
 	}
-- 
2.43.0

