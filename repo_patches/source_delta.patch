From 83fd59bb604c974e54b886716b7ee04bd27d126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 01/24] fix: keep absolute font file paths of a configuration
 file

---
 src/config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/config.go b/src/config/config.go
index fe9172c..e4eca46 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -662,7 +662,7 @@ func (c *Configuration) makePathsAbsolute(file string) {
 	sigolo.FatalCheck(err)
 
 	for i, f := range c.FontFiles {
-		absoluteFile := filepath.Join(absoluteConfigDir, f)
+		absoluteFile, err := util.ToAbsolutePathWithBasedir(absoluteConfigDir, f)
 		sigolo.FatalCheck(err)
 		c.FontFiles[i] = absoluteFile
 	}
-- 
2.43.0


From 7c0b395b4233546180d271412cb4c0e2cce35021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 02/24] fix: lists with repeated entries are not equal to lists
 with other entries

---
 src/util/collections.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/collections.go b/src/util/collections.go
index 520a289..e5fd1e0 100644
--- a/src/util/collections.go
+++ b/src/util/collections.go
@@ -33,6 +33,12 @@ func EqualsInAnyOrder[T comparable](arrayA []T, arrayB []T) bool {
 		}
 	}
 
+	for _, value := range arrayB {
+		if _, okA := mapA[value]; !okA {
+			return false
+		}
+	}
+
 	return true
 }
 
-- 
2.43.0


From 335717e74a0d4ea885b888630bce22166a58081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 03/24] fix: take over a changed order of the image article
 hosts

---
 src/config/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config/config.go b/src/config/config.go
index e4eca46..1de0f83 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"slices"
 	"strings"
 	"wiki2book/util"
 
@@ -605,7 +606,7 @@ func MergeIntoCurrentConfig(c *Configuration) {
 		sigolo.Tracef("Override WikipediaMathRestApi with %s", c.WikipediaMathRestApi)
 		Current.WikipediaMathRestApi = c.WikipediaMathRestApi
 	}
-	if !util.EqualsInAnyOrder(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
+	if !slices.Equal(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
 		sigolo.Tracef("Override WikipediaImageArticleHosts with %v", c.WikipediaImageArticleHosts)
 		Current.WikipediaImageArticleHosts = c.WikipediaImageArticleHosts
 	}
-- 
2.43.0


From 881942f2d823816e2768f0b455a2179c13a0f708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 04/24] fix: an evicted older state of a file doesn't reduce
 the growth of the cache anymore

---
 src/cache/cache.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index 029f44a..b9da113 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -141,11 +141,8 @@ func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, ne
 	// The new file might already exist in an older state (and thus with different size). The file will, therefore, not
 	// just be added to the cache, but instead the old file will be replaced. The cache then grows much less in size or
 	// might even shrink (in case the new file is smaller than the old one).
-	var netCacheSizeChangeInBytes = newFileSizeInBytes
-	existingFileSizeInBytes, err := util.CurrentFilesystem.GetSizeInBytes(GetFilePathInCache(cacheFolderName, newFileName))
-	if err == nil {
-		netCacheSizeChangeInBytes = newFileSizeInBytes - existingFileSizeInBytes
-	}
+	existingFileSizeInBytes, netCacheSizeChangeInBytes := getNetCacheSizeChange(cacheFolderName, newFileName, newFileSizeInBytes)
+	var err error
 
 	sigolo.Debugf("Max cache size: %f MB; current size: %f MB; new file size: %f MB; existing file size: %f MB (NaN means there's no existing file); net cache size change: %f MB", util.ToMB(config.Current.CacheMaxSize), util.ToMB(cacheSizeInBytes), util.ToMB(newFileSizeInBytes), util.ToMB(existingFileSizeInBytes), util.ToMB(netCacheSizeChangeInBytes))
 	for config.Current.CacheMaxSize <= cacheSizeInBytes+netCacheSizeChangeInBytes {
@@ -161,11 +158,24 @@ func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, ne
 		if err != nil {
 			return err
 		}
+
+		// The older state of the new file might just have been deleted and then doesn't reduce the size change anymore.
+		_, netCacheSizeChangeInBytes = getNetCacheSizeChange(cacheFolderName, newFileName, newFileSizeInBytes)
 	}
 
 	return nil
 }
 
+// getNetCacheSizeChange returns the size of the already existing file with the given name (which is math.MinInt64 when
+// there is none) and the number of bytes by which the cache grows when this file is replaced by the new one.
+func getNetCacheSizeChange(cacheFolderName string, newFileName string, newFileSizeInBytes int64) (int64, int64) {
+	existingFileSizeInBytes, err := util.CurrentFilesystem.GetSizeInBytes(GetFilePathInCache(cacheFolderName, newFileName))
+	if err != nil {
+		return existingFileSizeInBytes, newFileSizeInBytes
+	}
+	return existingFileSizeInBytes, newFileSizeInBytes - existingFileSizeInBytes
+}
+
 func deleteLargestFileFromCache(cacheSizeInBytes int64) (error, int64) {
 	var err error
 	var largestFilePath string
-- 
2.43.0


From 22bcc09d4ac7b5c7ec57dbbcf3ce48646790e738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 05/24] fix: searching the largest file of an empty folder
 doesn't crash anymore

---
 src/util/files.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/files.go b/src/util/files.go
index d676673..44ea1a4 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -358,6 +358,11 @@ func (o *OsFilesystem) FindLargestFile(path string, exceptDir string) (error, in
 		return err, math.MinInt64, ""
 	}
 
+	if currentLargestFile == nil {
+		// No file was found
+		return nil, 0, ""
+	}
+
 	return nil, currentLargestFile.Size(), currentLargestFilePath
 }
 
-- 
2.43.0


From c57c3910b54fe1a8690856d5aa8631b046f40940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 06/24] fix: send the request body again when a request is
 repeated

---
 src/http/http.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http/http.go b/src/http/http.go
index 9db145b..f8c7689 100644
--- a/src/http/http.go
+++ b/src/http/http.go
@@ -152,6 +152,14 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 			}
 			sigolo.Debugf("Received response status code %d and try request again in %d seconds", response.StatusCode, waitTime)
 			sleepFunc(waitTime)
+
+			// The body has already been read by the failed request
+			if request.GetBody != nil {
+				request.Body, err = request.GetBody()
+				if err != nil {
+					return nil, errors.Wrap(err, fmt.Sprintf("Unable to repeat %s request to url %s", request.Method, url))
+				}
+			}
 			continue
 		} else if response.StatusCode != http.StatusOK {
 			return nil, errors.Errorf("%s request to url %s failed with status code %d", request.Method, url, response.StatusCode)
-- 
2.43.0


From a292ef7b8c2d7961e74c840897e9b815b61b53a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 07/24] fix: handle colons in file names of images

---
 src/wikipedia/wikipedia.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 5737d70..29b021f 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -195,8 +195,7 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 // in case of errors). Whenever an error is returned, the article cache folder is needed as some files might be
 // redirects and such a redirect counts as article.
 func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNameWithPrefix string) (string, bool, error) {
-	// TODO handle colons in file names
-	imageName := "File:" + strings.Split(imageNameWithPrefix, ":")[1]
+	imageName := "File:" + strings.SplitN(imageNameWithPrefix, ":", 2)[1]
 	sigolo.Debugf("Download article file for image '%s' from '%s'", imageName, imageArticleHost)
 	imageArticle, err := w.DownloadArticle(imageArticleHost, imageName)
 	if err != nil {
@@ -206,11 +205,11 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 	// Replace spaces with underscore because wikimedia doesn't know spaces in file names:
 
 	originalImageNameWithPrefix := imageArticle.Parse.OriginalTitle
-	originalImageName := strings.Split(originalImageNameWithPrefix, ":")[1]
+	originalImageName := strings.SplitN(originalImageNameWithPrefix, ":", 2)[1]
 	originalImageName = strings.ReplaceAll(originalImageName, " ", "_")
 
 	actualImageNameWithPrefix := imageArticle.Parse.Title
-	actualImageName := strings.Split(actualImageNameWithPrefix, ":")[1]
+	actualImageName := strings.SplitN(actualImageNameWithPrefix, ":", 2)[1]
 	actualImageName = strings.ReplaceAll(actualImageName, " ", "_")
 
 	md5sum := fmt.Sprintf("%x", md5.Sum([]byte(actualImageName)))
-- 
2.43.0


From 3aec356091c8ac9ac1479e11581717711fc093e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 08/24] fix: unclosed links crashed the cleanup

---
 src/parser/cleaner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index a02a8f8..25bdaf0 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -77,6 +77,10 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 
 		if cursor == "[[" {
 			endIndex := FindCorrespondingCloseToken(content, i+2, "[", "]")
+			if endIndex == -1 || endIndex+2 > len(content) {
+				// Link is not closed -> move on in the normal text
+				continue
+			}
 
 			totalLinkContent := content[i+2 : endIndex]
 			linkSegments := strings.SplitN(totalLinkContent, ":", -1)
-- 
2.43.0


From 40dc2e72510206dff34e2d2447bcfe6bf4d8337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:05 +0000
Subject: [PATCH 09/24] fix: unclosed nowiki block crashed the parser

---
 src/parser/nowiki.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/nowiki.go b/src/parser/nowiki.go
index 47914a2..ed7f81d 100644
--- a/src/parser/nowiki.go
+++ b/src/parser/nowiki.go
@@ -23,6 +23,10 @@ func (t *Tokenizer) parseNowiki(content string) string {
 
 		if util.EqualsIgnoreCase(cursor, nowikiStart) {
 			endIndex := FindCorrespondingCloseTokenIgnoreCase(content, i+nowikiStartLen, nowikiStart, nowikiEnd)
+			if endIndex == -1 {
+				// Not closed -> move on in the normal text
+				continue
+			}
 
 			token := NowikiToken{
 				Content: content[i+nowikiStartLen : endIndex],
-- 
2.43.0


From 58a2512c370d4f2d1f314989b2a55f6e806a0c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 10/24] fix: unclosed references crashed the parser

---
 src/parser/reference.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 1dc66db..63a674b 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -70,6 +70,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 		if startEndIndex == -1 {
 			// XML for <ref not closed -> broken wikitext
 			sigolo.Errorf("XML element for reference start '%s' not closed (i.e. missing '%s'). Text around this location: ...%s...", refDefStart, xmlClosing, util.GetTextAround(content, i, 50))
+			continue
 		}
 
 		if referencePlaceholderEndRegex.MatchString(content[i:startEndIndex+1]) || referencePlaceholderShortRegex.MatchString(content[i:startEndIndex+1]) {
@@ -121,6 +122,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 				if refEndIndex == -1 {
 					// No end token found -> probably unsupported wikitext syntax (like nested refs)
 					sigolo.Errorf("No end-part for reference start '%s' found. Text around this location: ...%s...", refDefStart, util.GetTextAround(content, i, 50))
+					continue
 				}
 				refNumberCounterForCurrentGroup, content = t.parseReferenceDefinition(content, i, startEndIndex, refEndIndex, refNumberCounterForCurrentGroup, nameAttributeValue, nameToRefNumberForCurrentGroup, refNumberToContentForCurrentGroup, cursorWithinReferencePlaceholder, refDefLongEndLen)
 			}
-- 
2.43.0


From 9bf7fdee15baa4ba338d1326d4f54e73e7986c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:08 +0000
Subject: [PATCH 11/24] fix: link without target crashed the parser

---
 src/parser/link.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/link.go b/src/parser/link.go
index 83c24c1..dbbe943 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -90,7 +90,7 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 				continue
 			}
 
-			if linkTarget[0] == ':' {
+			if strings.HasPrefix(linkTarget, ":") {
 				// A link starting with ":" indicates e.g. a link to a category. Because we have no delimiter here, the
 				// link text is the part behind the last ":".
 				linkSegments := strings.SplitN(linkTarget, ":", -1)
-- 
2.43.0


From 16cef89fcb45268516e8d68312c026c5308eade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 12/24] fix: image without name crashed the parser

---
 src/parser/image.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/image.go b/src/parser/image.go
index 25926ec..8aeb93c 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -53,6 +53,11 @@ func (t *Tokenizer) escapeImages(content string) string {
 		filename = strings.TrimSpace(fileSegments[1])
 	}
 
+	if filename == "" {
+		// There is no image without a name
+		return ""
+	}
+
 	// Check if this media type is unwanted
 	fileExtension := strings.ToLower(strings.TrimPrefix(filepath.Ext(filename), "."))
 	if util.Contains(config.Current.IgnoredMediaTypes, fileExtension) {
-- 
2.43.0


From f8a55d2b3b688bfa6b3bc23d5157a57f2ec12f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:12 +0000
Subject: [PATCH 13/24] fix: image map at the end of the content crashed the
 parser

---
 src/parser/image.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/image.go b/src/parser/image.go
index 8aeb93c..6b22f62 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -183,6 +183,9 @@ func (t *Tokenizer) parseImageMaps(content string) string {
 			if line == "" {
 				// if empty -> delete this line i, the next line contains the image
 				lines = append(lines[:i], lines[i+1:]...)
+				if i >= len(lines) {
+					break
+				}
 				line = lines[i]
 			}
 
-- 
2.43.0


From 0951edf8ec058cd80f7a8d3b0b9a523ab5caec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 14/24] fix: unclosed image crashed the parser

---
 src/parser/image.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 6b22f62..2405ba8 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -204,10 +204,15 @@ func (t *Tokenizer) parseImageMaps(content string) string {
 func (t *Tokenizer) parseImages(content string) string {
 	var err error
 
-	startIndex := internalLinkStartRegex.FindStringIndex(content)
+	startIndex := findImageStart(content, 0)
 	for startIndex != nil {
 		// Use the end-index of the match, since it points to the ":" of the "[[File:" match
 		endIndex := FindCorrespondingCloseToken(content, startIndex[1], "[", "]")
+		if endIndex == -1 || endIndex+2 > len(content) {
+			// Image is not closed -> leave it as text and find next image
+			startIndex = findImageStart(content, startIndex[1])
+			continue
+		}
 
 		imageContent := content[startIndex[1]:endIndex]
 		imageContent = t.tokenizeContent(t, imageContent)
@@ -303,8 +308,18 @@ func (t *Tokenizer) parseImages(content string) string {
 		}
 
 		// Find next image
-		startIndex = internalLinkStartRegex.FindStringIndex(content)
+		startIndex = findImageStart(content, startIndex[0])
 	}
 
 	return content
 }
+
+// findImageStart returns the start and end index of the first beginning of an image at or behind the given index. When
+// there is none, nil is returned.
+func findImageStart(content string, index int) []int {
+	location := internalLinkStartRegex.FindStringIndex(content[index:])
+	if location == nil {
+		return nil
+	}
+	return []int{index + location[0], index + location[1]}
+}
-- 
2.43.0


From 6426154f860e2bf140bd2d502fa4aaf5e32a31ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 15/24] fix: unclosed tables crashed the parser

---
 src/parser/table.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 9595b5b..79e99e0 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -116,6 +116,10 @@ func (t *Tokenizer) tokenizeTable(content string) TableToken {
 		} else if isHeadingStart {
 			rowToken, i = t.tokenizeTableRow(lines, i)
 		} else if isRowStart {
+			if i+1 >= len(lines) {
+				// table is not closed and ends with an empty row
+				break
+			}
 			if strings.HasPrefix(lines[i+1], "!") {
 				// this table row is a heading
 				rowToken, i = t.tokenizeTableRow(lines, i+1)
@@ -168,11 +172,12 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 
 		// Collect all normal text rows until the next row or column starts.
 		i++
-		for l := strings.TrimSpace(lines[i]); !strings.HasPrefix(l, "|") && !strings.HasPrefix(l, "!"); {
+		for ; i < len(lines); i++ {
+			l := strings.TrimSpace(lines[i])
+			if strings.HasPrefix(l, "|") || strings.HasPrefix(l, "!") {
+				break
+			}
 			line += "\n" + l
-
-			i++
-			l = lines[i]
 		}
 		// Now the index is at the start of the next column/row -> reduce by 1 for later parsing.
 		i -= 1
@@ -217,11 +222,12 @@ func (t *Tokenizer) tokenizeTableCaption(lines []string, i int) (TableCaptionTok
 
 	// collect all lines from this caption
 	i++
-	for l := strings.TrimSpace(lines[i]); !strings.HasPrefix(l, "|") && !strings.HasPrefix(l, "!"); {
+	for ; i < len(lines); i++ {
+		l := strings.TrimSpace(lines[i])
+		if strings.HasPrefix(l, "|") || strings.HasPrefix(l, "!") {
+			break
+		}
 		captionLines += "\n" + l
-
-		i++
-		l = strings.TrimSpace(lines[i])
 	}
 
 	captionLines = strings.TrimPrefix(captionLines, "|+")
-- 
2.43.0


From 257c7fdd77c273f246bce76238a6d5a9bf5e6e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:14 +0000
Subject: [PATCH 16/24] fix: dollar signs in the text were taken for tokens

---
 src/generator/expand.go | 69 +++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 40 deletions(-)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index a3b0e54..ee74d64 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -71,7 +71,8 @@ func expand(expansionHandler ExpansionHandler, content interface{}) (string, err
 func expandString(g ExpansionHandler, content string) (string, error) {
 	content = g.expandMarker(content)
 
-	matches := tokenRegex.FindAllString(content, -1)
+	// Start and end indices of all token keys. Other occurrences of "$$" are normal text.
+	matches := tokenRegex.FindAllStringIndex(content, -1)
 
 	if len(matches) == 0 {
 		// no token in content
@@ -79,51 +80,39 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 	}
 
 	// Index where pure text starts (e.g. after a token)
-	textSegmentStartIndex := -1
+	textSegmentStartIndex := 0
 	newContent := ""
 
-	for i := 0; i < len(content); i++ {
-		if i < len(content)-1 && content[i:i+2] == "$$" {
-			// We found a token start -> Expand content before token and the token itself
-
-			// 1. Expand normal text before token (if there is any text before the token)
-			if textSegmentStartIndex != -1 {
-				pureTextSegment := content[textSegmentStartIndex:i]
-				expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
-				newContent += expandedPureTextSegment
-			}
-
-			// 2. Expand token and its content
-			tokenEndIndex := parser.FindCorrespondingCloseToken(content, i+2, "$$", "$$")
-			tokenKey := content[i+2 : tokenEndIndex]
-
-			tokenContent, hasTokenKey := g.getToken("$$" + tokenKey + "$$")
-			if !hasTokenKey {
-				return "", errors.Errorf("Token key %s not found in token map", tokenKey)
-			}
-			sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
-
-			expandedContent, err := expand(g, tokenContent)
-			if err != nil {
-				return "", err
-			}
-
-			newContent += expandedContent
-
-			// Skip the token with its ending and continue after it. Only "+1" because the loop ads another "+1" so that the whole token ending of length 2 is skipped.
-			i = tokenEndIndex + 1
-			textSegmentStartIndex = -1
-		} else if textSegmentStartIndex == -1 {
-			// When index is unset -> set it and therefore remember the start of a pure text segment
-			textSegmentStartIndex = i
+	for _, match := range matches {
+		// We found a token -> Expand content before token and the token itself
+
+		// 1. Expand normal text before token (if there is any text before the token)
+		if textSegmentStartIndex < match[0] {
+			newContent += g.expandSimpleString(content[textSegmentStartIndex:match[0]])
+		}
+
+		// 2. Expand token and its content
+		tokenKey := content[match[0]:match[1]]
+
+		tokenContent, hasTokenKey := g.getToken(tokenKey)
+		if !hasTokenKey {
+			return "", errors.Errorf("Token key %s not found in token map", tokenKey)
 		}
+		sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
+
+		expandedContent, err := expand(g, tokenContent)
+		if err != nil {
+			return "", err
+		}
+
+		newContent += expandedContent
+
+		textSegmentStartIndex = match[1]
 	}
 
 	// Expand the part behind the last token (if it exists)
-	if textSegmentStartIndex != -1 {
-		pureTextSegment := content[textSegmentStartIndex:]
-		expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
-		newContent += expandedPureTextSegment
+	if textSegmentStartIndex < len(content) {
+		newContent += g.expandSimpleString(content[textSegmentStartIndex:])
 	}
 
 	return newContent, nil
-- 
2.43.0


From b6608506f75e168fb8cccb4f2a19ddeae42a8db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 17/24] fix: an article listed twice got lost in the book

---
 src/main.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/main.go b/src/main.go
index 1b2010f..03bab50 100644
--- a/src/main.go
+++ b/src/main.go
@@ -342,7 +342,7 @@ func generateBookFromArticles(project *config.Project) {
 	numberOfArticles := len(articles)
 	articleOutputFiles := make([]string, numberOfArticles)
 
-	articleChan := make(chan string, config.Current.WorkerThreads)
+	articleChan := make(chan int, config.Current.WorkerThreads)
 	sigolo.Debugf("Use %d worker threads to process the articles", config.Current.WorkerThreads)
 
 	wikipediaService := wikipedia.NewWikipediaService(
@@ -364,16 +364,10 @@ func generateBookFromArticles(project *config.Project) {
 		sigolo.Debugf("Start worker thread %d", i)
 
 		go func(threadNumber int) {
-			for articleName := range articleChan {
+			for articleNumber := range articleChan {
+				articleName := articles[articleNumber]
 				sigolo.Debugf("Processing article %s on thread %d", articleName, threadNumber)
 
-				articleNumber := 0
-				for ; articleNumber < len(articles); articleNumber++ {
-					if articleName == articles[articleNumber] {
-						break
-					}
-				}
-
 				thisArticleOutputFile := processArticle(articleName, articleNumber+1, numberOfArticles, wikipediaService)
 				articleOutputFiles[articleNumber] = thisArticleOutputFile
 			}
@@ -384,9 +378,9 @@ func generateBookFromArticles(project *config.Project) {
 		}(i)
 	}
 
-	for _, articleName := range articles {
+	for articleNumber, articleName := range articles {
 		sigolo.Debugf("Pass article %s to worker threads", articleName)
-		articleChan <- articleName
+		articleChan <- articleNumber
 	}
 	close(articleChan)
 
-- 
2.43.0


From 4d8177520e0fd5c7c6c942a0857f11e0b4f0e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 18/24] fix: article with existing HTML file got lost in the
 book

---
 src/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.go b/src/main.go
index 03bab50..2f553f2 100644
--- a/src/main.go
+++ b/src/main.go
@@ -423,6 +423,9 @@ func processArticle(articleName string, currentArticleNumber int, totalNumberOfA
 	articleOutputFile := ""
 	if !shouldRecreateHtml(htmlFilePath, config.Current.ForceRegenerateHtml) {
 		sigolo.Debugf("Article '%s' (%d/%d): HTML for article does already exist. Skip parsing and HTML generation.", articleName, currentArticleNumber, totalNumberOfArticles)
+		var err error
+		articleOutputFile, err = util.ToAbsolutePath(htmlFilePath)
+		sigolo.FatalCheck(err)
 	} else {
 		sigolo.Debugf("Article '%s' (%d/%d): Download article", articleName, currentArticleNumber, totalNumberOfArticles)
 		wikiArticleDto, err := wikipediaService.DownloadArticle(wikipediaArticleHost, articleName)
-- 
2.43.0


From 18c8570855378c8590b7fa8149e09fc7ac1a07a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 19/24] fix: references in headings were numbered on their own

---
 src/parser/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 8220842..8b7abea 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -142,8 +142,8 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		content = t.parseNowiki(content)
 
 		content = t.parseBoldAndItalic(content)
-		content = t.parseHeadings(content)
 		content = t.parseReferences(content)
+		content = t.parseHeadings(content)
 		content = t.parseInternalLinks(content)
 
 		content = t.parseGalleries(content)
-- 
2.43.0


From a423846293a4736d7cfee2f11190d8bbb224533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 20/24] fix: references directly behind a removed tag were
 skipped

---
 src/parser/reference.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 63a674b..9fab126 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -73,6 +73,9 @@ func (t *Tokenizer) parseReferences(content string) string {
 			continue
 		}
 
+		// Number of characters behind the tag, which is used to continue directly behind it after the content has changed.
+		remainingLen := len(content) - (startEndIndex + 1)
+
 		if referencePlaceholderEndRegex.MatchString(content[i:startEndIndex+1]) || referencePlaceholderShortRegex.MatchString(content[i:startEndIndex+1]) {
 			// Tag like "</references>" or "<references />" found
 			if currentPlaceholderGroup == "" {
@@ -124,11 +127,15 @@ func (t *Tokenizer) parseReferences(content string) string {
 					sigolo.Errorf("No end-part for reference start '%s' found. Text around this location: ...%s...", refDefStart, util.GetTextAround(content, i, 50))
 					continue
 				}
+				remainingLen = len(content) - (refEndIndex + refDefLongEndLen)
 				refNumberCounterForCurrentGroup, content = t.parseReferenceDefinition(content, i, startEndIndex, refEndIndex, refNumberCounterForCurrentGroup, nameAttributeValue, nameToRefNumberForCurrentGroup, refNumberToContentForCurrentGroup, cursorWithinReferencePlaceholder, refDefLongEndLen)
 			}
 
 			refNumberCounter[groupName] = refNumberCounterForCurrentGroup
 		}
+
+		// The tag might have been removed, so the next tag might start at or even before the current index.
+		i = len(content) - remainingLen - 1
 	}
 
 	return content
-- 
2.43.0


From 85f5d2e07526acb79e07fafc287ac9e3cd89657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 21/24] fix: an error while generating the combined statistics
 was ignored

---
 src/generator/stats.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 4668261..f2e7c65 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -324,6 +324,9 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	} else {
 		return errors.Errorf("Invalid output type '%s' for stats", config.Current.OutputType)
 	}
+	if err != nil {
+		return errors.Wrapf(err, "Error generating combined stats for output file '%s'", outputFilePath)
+	}
 
 	// Just to make it easier to simply open the read the file in CLI because usually files have a newline at the end.
 	outputConent = append(outputConent, byte('\n'))
-- 
2.43.0


From 379d4d01d188d33bb80678efa3eb1ba7c462db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:59 +0000
Subject: [PATCH 22/24] fix: table headings with more than one line were turned
 into normal cells

---
 src/parser/table.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 79e99e0..4d24506 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -166,8 +166,13 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 			break
 		}
 
-		line = strings.TrimPrefix(line, "|")
-		line = strings.TrimPrefix(line, "!")
+		// The marker of the cell, which is only the very first character. The cell might have further lines.
+		isHeading := strings.HasPrefix(line, "!")
+		if isHeading {
+			line = strings.TrimPrefix(line, "!")
+		} else {
+			line = strings.TrimPrefix(line, "|")
+		}
 		line = strings.TrimSpace(line)
 
 		// Collect all normal text rows until the next row or column starts.
@@ -186,7 +191,7 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 		tokenizedLine = strings.TrimSpace(tokenizedLine)
 
 		var token TableColToken
-		if strings.HasPrefix(strings.TrimSpace(lines[i]), "!") {
+		if isHeading {
 			token = TableColToken{
 				Attributes: attributeToken,
 				Content:    tokenizedLine,
-- 
2.43.0


From de9947c34a043b328a93d64915e0f14ef6e8b365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:07 +0000
Subject: [PATCH 23/24] fix: text behind the second bar of a table cell was
 lost

---
 src/parser/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 4d24506..ad4db22 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -252,7 +252,7 @@ func (t *Tokenizer) tokenizeTableCaption(lines []string, i int) (TableCaptionTok
 func (t *Tokenizer) tokenizeTableEntry(content string) (string, TableColAttributeToken) {
 	var attributeToken TableColAttributeToken
 
-	splittedContent := strings.Split(content, "|")
+	splittedContent := strings.SplitN(content, "|", 2)
 	if len(splittedContent) < 2 {
 		return t.tokenizeContent(t, content), attributeToken
 	}
-- 
2.43.0


From 327a3958064ef22f1b4d770ad9734b85ef233d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:06 +0000
Subject: [PATCH 24/24] fix: sub-lists were not counted by the statistics

---
 src/generator/stats.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index f2e7c65..3c81961 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -229,7 +229,18 @@ func (g *StatsGenerator) expandListItems(items []parser.ListItemToken) (string,
 }
 
 func (g *StatsGenerator) expandListItem(token parser.ListItemToken) (string, error) {
-	return expand(g, token.Content)
+	result, err := expand(g, token.Content)
+	if err != nil {
+		return "", err
+	}
+	for _, subList := range token.SubLists {
+		expandedSubList, err := expand(g, subList)
+		if err != nil {
+			return "", err
+		}
+		result += expandedSubList
+	}
+	return result, nil
 }
 
 func (g *StatsGenerator) expandRefDefinition(token parser.RefDefinitionToken) (string, error) {
-- 
2.43.0

