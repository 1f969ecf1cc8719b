From 764ebc6187e3e2365b60e73a7e24224e7cf2adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 01/49] fix: consecutive first descents follow one another
 instead of becoming alternative paths

---
 jom/json_map/json_path_parse.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 6891d6a..eb39ef2 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -242,7 +242,14 @@ func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state,
 		//fmt.Println("nextPaths:", nextPaths, "token:", string(token), "togo:", string(togo))
 
 		// Add the nextPath variable to the end of all absolute paths
-		errs = absolutePaths.AddToAll(nil, false, nextPaths...)
+		if next.name == "Dot (.)" {
+			// The First keys of a run of dots follow one another, they are not alternatives of each other
+			for _, nextPath := range nextPaths {
+				errs = append(errs, absolutePaths.AddToAll(nil, false, nextPath)...)
+			}
+		} else {
+			errs = absolutePaths.AddToAll(nil, false, nextPaths...)
+		}
 		if errs != nil {
 			return nil, globals.JsonPathError.FillFromErrors(errs)
 		}
-- 
2.43.0


From 73b8308d30f9b8bdf0dde4fca14b79075dfb879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 02/49] fix: refuse a negative array index instead of silently
 ignoring it

---
 jom/json_map/json_path_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index eb39ef2..aac3bc6 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -62,7 +62,7 @@ var (
 	}
 	index = state{
 		name:       "Array Index ([n])",
-		tokenRegex: regexp.MustCompile("\\[(-?\\d+:?|:?-?\\d+|\\d+:\\d+|\\*|\\d+(,\\s*\\d+)*)]"),
+		tokenRegex: regexp.MustCompile("\\[(-?\\d+:|:-?\\d+|\\d+:\\d+|\\*|\\d+(,\\s*\\d+)*)]"),
 		// The validator for index needs to check if its slice notation [start:end], [start:], [:end], [-start:], [:-end]
 		// or if just a normal array index: [n]
 		validator:  func(token []byte, togo []byte) (absolutePathKeys []AbsolutePathKey, errs []error) {
-- 
2.43.0


From 7847d2b02492be81f425a15616ed91de4276397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 03/49] fix: parse JSON paths with tokens longer than the
 reader's default buffer

---
 jom/json_map/json_path_parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index aac3bc6..25260ea 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -268,7 +268,8 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 	absolutePaths = make(AbsolutePaths, 0)
 	previousState := &start
 	currentState := &root
-	jsonPathReader := bufio.NewReader(strings.NewReader(jsonPath))
+	// The buffer holds the entire JSON path so that a token is never cut off by the end of the buffer
+	jsonPathReader := bufio.NewReaderSize(strings.NewReader(jsonPath), len(jsonPath) + 1)
 
 	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
 		state.tokenRegex.Longest()
-- 
2.43.0


From c1bbb1d832b471f821d2727c867c3e31fa9fd73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 04/49] fix: data race between JSON paths that are parsed
 concurrently

---
 jom/json_map/json_path_parse.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 25260ea..6725d56 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -206,6 +206,14 @@ var fromStateToStates = map[string][]*state{
 	"Filter Expression ([?(...)])": {&recursiveLookup, &dot, &index, &filter},
 }
 
+// Make the regexes of all the states prefer the longest match. This is only done once as it modifies the regexes, which
+// are shared by every JSON path being parsed.
+func init() {
+	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
+		state.tokenRegex.Longest()
+	}
+}
+
 // Will decide the next state given a list of possible states and call the validator for that next state.
 func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state, err error) {
 	//fmt.Println("togo:", string(togo), "togo len:", len(togo))
@@ -271,10 +279,6 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 	// The buffer holds the entire JSON path so that a token is never cut off by the end of the buffer
 	jsonPathReader := bufio.NewReaderSize(strings.NewReader(jsonPath), len(jsonPath) + 1)
 
-	for _, state := range []*state{&root, &dot, &index, &filter, &property, &recursiveLookup} {
-		state.tokenRegex.Longest()
-	}
-
 	for {
 		// Break out if at finish state
 		if currentState.name == "End" {
-- 
2.43.0


From 7c7eb9ae2ae34fbd3c659fa79912c030e318c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 05/49] fix: a filter expression ends at its own closing
 bracket and keeps its inner text

---
 jom/json_map/json_path_parse.go | 43 ++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 6725d56..7d39908 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -55,7 +55,7 @@ var (
 			// We just add the expression body to the absolute path keys
 			absolutePathKeys = []AbsolutePathKey{{
 				KeyType: Filter,
-				Value:   string(regexp.MustCompile("(\\[\\?\\(|\\)])").ReplaceAll(token, []byte(""))),
+				Value:   string(token[len("[?("):len(token) - len(")]")]),
 			}}
 			return absolutePathKeys, nil
 		},
@@ -214,6 +214,43 @@ func init() {
 	}
 }
 
+// Finds the token of the state within the given bytes in the same way as regexp.Regexp.FindIndex.
+//
+// A filter expression ends at the ")]" that closes its "[?(" (string literals are skipped). If there is none that the
+// path could continue from then the longest match of the regex is used.
+func (s *state) findIndex(togo []byte) []int {
+	occurrences := s.tokenRegex.FindIndex(togo)
+	if len(occurrences) == 0 || s.name != "Filter Expression ([?(...)])" {
+		return occurrences
+	}
+	depth := 0
+	quote := byte(0)
+	for i := occurrences[0] + len("[?"); i < occurrences[1]; i++ {
+		switch c := togo[i]; {
+		case c == '\\':
+			// Skip the escaped character
+			i++
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"':
+			quote = c
+		case c == '(':
+			depth++
+		case c == ')':
+			depth--
+			if depth == 0 && i + 1 < occurrences[1] && togo[i + 1] == ']' {
+				rest := togo[i + 2:]
+				if len(rest) == 0 || strings.ContainsRune(".[ \t\r\n", rune(rest[0])) {
+					return []int{occurrences[0], i + 2}
+				}
+			}
+		}
+	}
+	return occurrences
+}
+
 // Will decide the next state given a list of possible states and call the validator for that next state.
 func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state, err error) {
 	//fmt.Println("togo:", string(togo), "togo len:", len(togo))
@@ -227,7 +264,7 @@ func (s *state) handler(togo []byte, absolutePaths *AbsolutePaths) (next *state,
 		// Find which state is next by checking the regex of each possible state on the characters to go
 		for _, possibleState := range possibleStates {
 			// If possible state's regex matches the start of the characters to go then that is the next state
-			if occurrences := possibleState.tokenRegex.FindIndex(togo); len(occurrences) != 0 && occurrences[0] == 0 {
+			if occurrences := possibleState.findIndex(togo); len(occurrences) != 0 && occurrences[0] == 0 {
 				next = possibleState
 				token = togo[occurrences[0]:occurrences[1]]
 				break
@@ -289,7 +326,7 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 		// Peak all the bytes until the end of the buffer
 		next, _ := jsonPathReader.Peek(jsonPathReader.Size())
 		// Always try to find the longest
-		occurrences := currentState.tokenRegex.FindIndex(next)
+		occurrences := currentState.findIndex(next)
 		// If there are no occurrences found or the occurrence doesn't start at the beginning of the buffer then error out
 		if len(occurrences) == 0 || occurrences[0] != 0 {
 			err = globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
-- 
2.43.0


From 1a203e82d4732d256676c5ffbd6317631a7cd1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 06/49] fix: adding a key to paths that share an array
 overwrote keys of other paths

---
 jom/json_map/absolute_paths.go.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jom/json_map/absolute_paths.go.go b/jom/json_map/absolute_paths.go.go
index 1e52092..6189b82 100644
--- a/jom/json_map/absolute_paths.go.go
+++ b/jom/json_map/absolute_paths.go.go
@@ -97,7 +97,8 @@ func (p *AbsolutePaths) AddToAll(jsonMap JsonMapInt, check bool, pathValues ...A
 		} else if len(pathValues) == 1 {
 			// Do this to save memory as no new absolute paths are created therefore no paths need to be cloned
 			for i, absolutePath := range *p {
-				(*p)[i] = append(absolutePath, pathValues[0])
+				// (the capacity is limited so that append never writes into an array shared with another path)
+				(*p)[i] = append(absolutePath[:len(absolutePath):len(absolutePath)], pathValues[0])
 			}
 		}
 	} else {
-- 
2.43.0


From ac64d66a67f2b3f4c62237d232ce2daa617147c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 07/49] fix: a filter no longer hides the error of an earlier
 step of the path

---
 jom/jom.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 3073385..42cf0d1 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -482,9 +482,11 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			case json_map.Filter:
 				// Using the filterRunner function we can run the filter on the values of each key in the map
 				filterExp := []byte(key.Value.(string))
-				currValue, err = filterRunner(m, filterExp, jsonMap, true, false)
-				if err != nil {
-					break
+				// (an error of an earlier key is kept, even if the filter succeeds)
+				var filterErr error
+				currValue, filterErr = filterRunner(m, filterExp, jsonMap, true, false)
+				if filterErr != nil {
+					err = filterErr
 				}
 			case json_map.First:
 				// Similar as with the wildcards we sort the keys alphabetically then set the value of the first, THAT
@@ -546,9 +548,11 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			case json_map.Filter:
 				// Using the filterRunner function we can run the filter on the elements of the array
 				filterExp := []byte(key.Value.(string))
-				currValue, err = filterRunner(arr, filterExp, jsonMap, false, false)
-				if err != nil {
-					break
+				// (an error of an earlier key is kept, even if the filter succeeds)
+				var filterErr error
+				currValue, filterErr = filterRunner(arr, filterExp, jsonMap, false, false)
+				if filterErr != nil {
+					err = filterErr
 				}
 			case json_map.First:
 				err = globals.JsonPathError.FillError("Cannot recurse into an array")
-- 
2.43.0


From 547bffd798a41bb408afebdc79e8bda0cb4b6de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 08/49] fix: a slice that ends beyond the array is an error
 instead of reading the array's spare capacity

---
 jom/jom.go | 28 +++-------------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 42cf0d1..6ec6747 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -582,33 +582,11 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 				}
 				//fmt.Println("sliceIndices", sliceIndices)
 
-				// Wrap next bit inside anon func so we can catch any panics that occur
-				func() {
-					defer func() {
-						if caught := recover(); caught != nil {
-							switch caught.(type) {
-							case error:
-								// Wrap the error as a JsonPathError if the error has something to do with slices
-								if strings.Contains(caught.(error).Error(), "slice") {
-									err = globals.JsonPathError.FillError(fmt.Sprintf("Slice error occured: %v", caught))
-								} else {
-									// Otherwise something more awful has gone wrong
-									panic(caught)
-								}
-							default:
-								panic(caught)
-							}
-						}
-					}()
-					// Then set the current value to the slice
-					// NOTE this might panic so we set up a recovery function above so we can re-wrap any slice errors that occur
-					currValue = arr[sliceIndices[0]:sliceIndices[1]]
-				}()
-
-				// Break from the loop if an error has occurred
-				if err != nil {
+				if sliceIndices[0] < 0 || sliceIndices[1] > len(arr) || sliceIndices[0] > sliceIndices[1] {
+					err = globals.JsonPathError.FillError(fmt.Sprintf("Slice error occured: [%v:%v] (translated to %v) is out of range for array of length %d", slice[0], slice[1], sliceIndices, len(arr)))
 					break
 				}
+				currValue = arr[sliceIndices[0]:sliceIndices[1]]
 			case json_map.RecursiveLookup:
 				// We set the current value to be all found values from the recursive lookup helper
 				currValue = recursiveLookup(key, arr)
-- 
2.43.0


From 6e5d0b58a34e969c07f91e410e841870fed10fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 09/49] fix: setting or deleting an empty slice no longer
 affects every element

---
 jom/jom.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 6ec6747..0fe5604 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -956,7 +956,7 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					}
 					//fmt.Println("sliceIndices", sliceIndices)
 
-					if sliceIndices[0] < 0 || sliceIndices[1] > len(arr) {
+					if sliceIndices[0] < 0 || sliceIndices[1] > len(arr) || sliceIndices[0] > sliceIndices[1] {
 						panic(recursionError{fmt.Sprintf("Slice: [%v:%v] (translated to %v), is out of range", slice[0], slice[1], sliceIndices)})
 					}
 
@@ -965,8 +965,10 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 						panic(recursionError{err.Error()})
 					}
 
-					// Then we iterate through a range of slice indices
-					setterArr(&arr, ints.Range(sliceIndices[0], sliceIndices[1] - 1, 1)...)
+					// Then we iterate through a range of slice indices (an empty slice designates no elements)
+					if sliceIndices[0] < sliceIndices[1] {
+						setterArr(&arr, ints.Range(sliceIndices[0], sliceIndices[1] - 1, 1)...)
+					}
 				case json_map.RecursiveLookup:
 					// NOTE: The RecursiveLookup case is a special scenario where the traversal is continued within the
 					// recursive lookup function. This means after the function returns we can empty the path queue so
-- 
2.43.0


From 415ce268930e5d4d602aac0a0ed85e5aa3c34d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 10/49] fix: deleting all the elements of an empty array no
 longer panics

---
 jom/jom.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 0fe5604..5878a8e 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -914,8 +914,10 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					//fmt.Println("Getting index:", i, "from", arr, "=", arr[i])
 					setterArr(&arr, i)
 				case json_map.Wildcard:
-					// If a wildcard then we need to iterate over array and recurse down each element
-					setterArr(&arr)
+					// If a wildcard then we need to iterate over array and recurse down each element (if there are any)
+					if len(arr) > 0 {
+						setterArr(&arr)
+					}
 				case json_map.Filter:
 					var newSubtreeIndices interface{}
 					// Using the filterRunner function we can run the filter on the elements of the array
-- 
2.43.0


From a16873bc9565547765c0ba5aceb5247dfe5a86b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 11/49] fix: no empty key within the absolute paths of an
 array's nodes

---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 5878a8e..3af19f2 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -657,7 +657,7 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 			// We unwrap any arrays returned from the finders
 			for i, v := range value.Value.([]interface{}) {
 				// We have to amend the absolute paths for the nodes by adding on an IndexKey at each iteration
-				amendedAbsolute := make([]json_map.AbsolutePathKey, len(value.Absolute) + 1)
+				amendedAbsolute := make([]json_map.AbsolutePathKey, len(value.Absolute), len(value.Absolute) + 1)
 				copy(amendedAbsolute, value.Absolute)
 				amendedAbsolute = append(amendedAbsolute, json_map.AbsolutePathKey{
 					KeyType: json_map.IndexKey,
-- 
2.43.0


From 6074142c9dff9e87e6b232d34d9fd513dde66292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 12/49] fix: selection gives the values in the order of the
 document and the listed paths, every time

---
 jom/jom.go | 122 +++++++++++++++++++++++++----------------------------
 1 file changed, 58 insertions(+), 64 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 3af19f2..8acddb6 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -9,7 +9,6 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
-	"github.com/andygello555/gotils/concurrency"
 	"github.com/andygello555/gotils/ints"
 	"github.com/andygello555/gotils/maps"
 	"github.com/andygello555/gotils/slices"
@@ -327,8 +326,14 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	// Start our for loop depending on whether our obj is a map[string]interface{} or a []interface{}
 	//fmt.Println("\nRunning filter: \"", string(filterExp), "\" on", obj)
 	if mapType {
-		for k, node := range obj.(map[string]interface{}) {
-			err = loopBody(k, node)
+		// The keys are visited in order so that the results are always in the same order
+		keys := make([]string, 0)
+		for k := range obj.(map[string]interface{}) {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+		for _, k := range keys {
+			err = loopBody(k, obj.(map[string]interface{})[k])
 			if err != nil {
 				break
 			}
@@ -359,39 +364,40 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 
 	// Temp helper function for recursive lookups
 	recursiveLookup := func(key json_map.AbsolutePathKey, arrOrMap interface{}) []interface{} {
-		// We'll have to spin up additional finders for every key within this map
-		// Create a wait group which all Sub-Finders will be added to
-		var subWg sync.WaitGroup
-		// Create an in and out channel using the InOut data structure
-		inFound, outFound := concurrency.InOut()
 		toFind := key.Value.(string)
 		foundValues := make([]interface{}, 0)
 
-		// Set up a temp function for the RecursiveLookup finders
-		var subFinder func(subtree interface{}, subWg *sync.WaitGroup, toFind string, foundlings chan<- interface{})
-		subFinder = func(subtree interface{}, subWg *sync.WaitGroup, toFind string, foundlings chan<- interface{}) {
-			// Only defer done when a wait group is given
-			if subWg != nil {
-				defer subWg.Done()
-			}
-
+		// Set up a temp function for the RecursiveLookup
+		var subFinder func(subtree interface{})
+		subFinder = func(subtree interface{}) {
 			switch subtree.(type) {
 			case map[string]interface{}:
 				subM := subtree.(map[string]interface{})
-				for subSubKey, subSubtree := range subM {
+				// The keys are visited in order so that the results are always in the same order
+				keys := make([]string, 0)
+				for k := range subM {
+					keys = append(keys, k)
+				}
+				sort.Strings(keys)
+				for _, subSubKey := range keys {
 					// Recurse into all the keys within the map checking if the key of the current subtree is equal to
 					// the key we are meant to be finding
 					if subSubKey == toFind {
-						// If so we add the subtree to the values channel
-						foundlings <- subSubtree
+						// If so we add the subtree to the found values. If it is an array then we will "unwrap" it
+						switch v := subM[subSubKey].(type) {
+						case []interface{}:
+							foundValues = append(foundValues, v...)
+						default:
+							foundValues = append(foundValues, v)
+						}
 					}
 					// ... we still traverse in order to explore everything
-					subFinder(subSubtree, nil, toFind, foundlings)
+					subFinder(subM[subSubKey])
 				}
 			case []interface{}:
 				// Since an array doesn't have any keys to search for we will just recurse down
 				for _, subSubtree := range subtree.([]interface{}) {
-					subFinder(subSubtree, nil, toFind, foundlings)
+					subFinder(subSubtree)
 				}
 			default:
 				// Base case so we'll break and return
@@ -400,37 +406,22 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			return
 		}
 
-		// Start the sub-finders for each sub-tree of depth one
+		// Search each sub-tree of depth one
 		// We do a type switch here to work out whether we are iterating over a map or on array
 		switch arrOrMap.(type) {
 		case map[string]interface{}:
 			m := arrOrMap.(map[string]interface{})
-			subWg.Add(len(m))
-			for _, value := range m {
-				go subFinder(value, &subWg, toFind, inFound)
+			keys := make([]string, 0)
+			for k := range m {
+				keys = append(keys, k)
 			}
-		case []interface{}:
-			arr := arrOrMap.([]interface{})
-			subWg.Add(len(arr))
-			for _, value := range arr {
-				go subFinder(value, &subWg, toFind, inFound)
+			sort.Strings(keys)
+			for _, k := range keys {
+				subFinder(m[k])
 			}
-		}
-
-		// Wait for all Finders and then close the input channel
-		subWg.Wait()
-		close(inFound)
-
-		// Finally we read all the values from the out channel and append them to the foundValues array
-		for v := range outFound {
-			// If the value added was an array then we will "unwrap" it
-			switch v.(type) {
-			case []interface{}:
-				for _, av := range v.([]interface{}) {
-					foundValues = append(foundValues, av)
-				}
-			default:
-				foundValues = append(foundValues, v)
+		case []interface{}:
+			for _, value := range arrOrMap.([]interface{}) {
+				subFinder(value)
 			}
 		}
 		return foundValues
@@ -622,35 +613,38 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 	// Create a wait group which all Finders will be added to
 	var wg sync.WaitGroup
 
-	// Both the channels can be buffered to be the length of the array of absolute paths to be evaluated
-	// Create a channel of errors which records all the errors that happen within the Finders
-	errsChan := make(chan error, len(*absolutePaths))
-	// Also create a channel for the return values found by the Finders
-	valuesChan := make(chan json_map.JsonPathNode, len(*absolutePaths))
+	// Each Finder has its own channels, so that the results are in the order of the absolute paths, both are buffered as
+	// a Finder pushes at most a single error or value
+	// Create channels of errors which record the errors that happen within the Finders
+	errsChans := make([]chan error, len(*absolutePaths))
+	// Also create channels for the return values found by the Finders
+	valuesChans := make([]chan json_map.JsonPathNode, len(*absolutePaths))
 
 	// Start the finders
 	wg.Add(len(*absolutePaths))
-	for _, absolutePath := range *absolutePaths {
-		go pathFinder(absolutePath, jsonMap.insides, errsChan, valuesChan, &wg)
+	for i, absolutePath := range *absolutePaths {
+		errsChans[i] = make(chan error, 1)
+		valuesChans[i] = make(chan json_map.JsonPathNode, 1)
+		go pathFinder(absolutePath, jsonMap.insides, errsChans[i], valuesChans[i], &wg)
 	}
 
-	// Wait for all Finders and then close the errors channel
+	// Wait for all Finders
 	wg.Wait()
-	close(errsChan)
-	close(valuesChan)
-
-	if len(errsChan) > 0 {
-		errs = make([]error, 0)
-		// Consume all the errors in the channel and append them to the error return array
-		for err := range errsChan {
-			errs = append(errs, err)
+
+	// Consume all the errors in the channels and append them to the error return array
+	for _, errsChan := range errsChans {
+		if len(errsChan) > 0 {
+			errs = append(errs, <-errsChan)
 		}
+	}
+	if len(errs) > 0 {
 		return values, errs
 	}
 
-	// Fill out the values array by consuming from the values channel
+	// Fill out the values array by consuming from the values channels
 	values = make([]*json_map.JsonPathNode, 0)
-	for value := range valuesChan {
+	for _, valuesChan := range valuesChans {
+		value := <-valuesChan
 		//fmt.Println("Appending", value)
 		switch value.Value.(type) {
 		case []interface{}:
-- 
2.43.0


From 891981fa9051fa6b0e78e0527bfca8f1958e0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 13/49] fix: a recursive lookup also finds the keys of the
 object it starts from

---
 jom/jom.go | 40 ++++------------------------------------
 1 file changed, 4 insertions(+), 36 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 8acddb6..e3b7e21 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -406,24 +406,8 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 			return
 		}
 
-		// Search each sub-tree of depth one
-		// We do a type switch here to work out whether we are iterating over a map or on array
-		switch arrOrMap.(type) {
-		case map[string]interface{}:
-			m := arrOrMap.(map[string]interface{})
-			keys := make([]string, 0)
-			for k := range m {
-				keys = append(keys, k)
-			}
-			sort.Strings(keys)
-			for _, k := range keys {
-				subFinder(m[k])
-			}
-		case []interface{}:
-			for _, value := range arrOrMap.([]interface{}) {
-				subFinder(value)
-			}
-		}
+		// The search includes the keys of the current map itself
+		subFinder(arrOrMap)
 		return foundValues
 	}
 
@@ -795,24 +779,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					return newSubtree
 				}
 
-				// RECURSE DOWN EACH SUBTREE IN THE MAP/ARRAY
-				// We do a type switch here to work out whether we are iterating over a map or on array
-				switch arrOrMap.(type) {
-				case map[string]interface{}:
-					m := arrOrMap.(map[string]interface{})
-					mCopy := maps.CopyMap(m)
-					for k, v := range m {
-						mCopy[k] = subFinder(v, toFind)
-					}
-					newTree = mCopy
-				case []interface{}:
-					arr := arrOrMap.([]interface{})
-					arrCopy := make([]interface{}, len(arr))
-					for i, v := range arr {
-						arrCopy[i] = subFinder(v, toFind)
-					}
-					newTree = arrCopy
-				}
+				// The search includes the keys of the current map itself
+				newTree = subFinder(arrOrMap, toFind)
 				return newTree
 			}
 
-- 
2.43.0


From 43895e3d222e97393e3e10151b78e21409cbe275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 14/49] fix: a value set at several places is no longer shared
 between them

---
 jom/jom.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index e3b7e21..cad9252 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -657,6 +657,31 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 	return values, nil
 }
 
+// Returns a deep copy of the maps and arrays within the given value. Any other values are returned as they are.
+func copyValue(value interface{}) interface{} {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		if v == nil {
+			return v
+		}
+		m := make(map[string]interface{}, len(v))
+		for key, element := range v {
+			m[key] = copyValue(element)
+		}
+		return m
+	case []interface{}:
+		if v == nil {
+			return v
+		}
+		arr := make([]interface{}, len(v))
+		for i, element := range v {
+			arr[i] = copyValue(element)
+		}
+		return arr
+	}
+	return value
+}
+
 // Given the list of absolute paths for a JsonMap: will set the values pointed to by the given JSON path to be the
 // given value.
 //
@@ -699,7 +724,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 					}
 					return newValue
 				}
-				return value
+				// Every place gets its own copy so that later changes to one of them don't appear in the others
+				return copyValue(value)
 			}
 
 			// Specific setters for maps and arrays. Takes a reference to a map/array and modifies in place
-- 
2.43.0


From 05af17c7b1bd620b4785af259a4d4ec204d5496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 15/49] fix: scripts that were already run, stripped or deleted
 are not found again by a later traversal

---
 jom/jom.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index cad9252..afb1a5d 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1146,6 +1146,9 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 	// Indicates whether a script tag has been found at the current depth or a nested depth. Used to indicate when to
 	// join a scriptFields subtree to its parent tree.
 	found = false
+	// Forget the fields found by any previous traversal as they might not be there anymore
+	jsonMap.traversal.script = make(map[string]interface{})
+	jsonMap.traversal.nonScript = make(map[string]interface{})
 
 	for key, element := range *(jsonMap.GetInsides()) {
 		switch element.(type) {
@@ -1268,8 +1271,11 @@ func (jsonMap *JsonMap) Run() {
 		// Dequeue the scriptKey from the scriptQueue
 		scriptKey := heap.Pop(&scriptQueue).(string)
 
-		// Get the script language by CheckIfScript
-		script := jsonMap.traversal.script[scriptKey].(code.Code)
+		// Get the script language by CheckIfScript (a callback might have stripped its scope)
+		script, ok := jsonMap.traversal.script[scriptKey].(code.Code)
+		if !ok {
+			continue
+		}
 
 		// Run the script for the script's language. This will...
 		// 1. Create the JOM object, setup any builtin functions and insert the JOM into the script environment
-- 
2.43.0


From ef509ca332cc8d745f694bc348bde57968185a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 16/49] fix: find, run and strip the scripts of objects in
 arrays nested within arrays

---
 jom/jom.go | 96 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 58 insertions(+), 38 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index afb1a5d..768a1df 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1138,6 +1138,41 @@ func (jsonMap *JsonMap) MarkupCode(jsonPath string, shebangName string, script s
 	return err
 }
 
+// Finds all the script and non-script fields of the objects within the given array and the arrays nested in it.
+//
+// Returns matching arrays for both.
+func findScriptFieldsArray(array []interface{}) (script []interface{}, nonScript []interface{}, found bool) {
+	// Allocate matching arrays
+	script = make([]interface{}, len(array))
+	nonScript = make([]interface{}, len(array))
+
+	for i, inner := range array {
+		switch inner.(type) {
+		case map[string]interface{}:
+			// Recurse over all objects
+			innerMap := NewFromMap(inner.(map[string]interface{}))
+			if innerMap.FindScriptFields() {
+				found = true
+				script[i] = innerMap.traversal.script
+			}
+			// Always join the nonScript fields back into the main array
+			nonScript[i] = innerMap.traversal.nonScript
+		case []interface{}:
+			// Recurse over all nested arrays
+			scriptInner, nonScriptInner, foundInner := findScriptFieldsArray(inner.([]interface{}))
+			if foundInner {
+				found = true
+				script[i] = scriptInner
+			}
+			nonScript[i] = nonScriptInner
+		default:
+			// The current element is left as nil in the script array to indicate that there is no script here
+			nonScript[i] = inner
+		}
+	}
+	return script, nonScript, found
+}
+
 // Finds all the script and non-script fields within a JsonMap.
 //
 // Updates the script and nonScript fields within the JsonMap's traversal object. Scripts will be replaced by a code.Code
@@ -1165,33 +1200,11 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 			// Always join the nonScriptFieldsInner back into the main tree (nonScriptFields)
 			jsonMap.traversal.nonScript[key] = innerMap.traversal.nonScript
 		case []interface{}:
-			// Allocate a matching array
-			arrayLen := len(element.([]interface{}))
-			scriptArrayInner := make([]interface{}, arrayLen)
-			nonScriptArrayInner := make([]interface{}, arrayLen)
-			foundInner := false
-
-			for i, inner := range element.([]interface{}) {
-				switch inner.(type) {
-				case map[string]interface{}:
-					// Recurse over all objects
-					innerMap := NewFromMap(inner.(map[string]interface{}))
-					foundInnerInner := innerMap.FindScriptFields()
-					if foundInnerInner {
-						foundInner = true
-						scriptArrayInner[i] = innerMap.traversal.script
-					}
-					// Always join nonScriptFieldsInner back into main array (nonScriptArrayInner)
-					nonScriptArrayInner[i] = innerMap.traversal.nonScript
-				default:
-					// Fill current element with nil in the scriptArray to indicate that there is no script here
-					scriptArrayInner[i] = nil
-					nonScriptArrayInner[i] = inner
-				}
-			}
+			scriptArrayInner, nonScriptArrayInner, foundInner := findScriptFieldsArray(element.([]interface{}))
 
 			// If any scripts were found in the scope of the array then assign the array to the current key
 			if foundInner {
+				found = true
 				jsonMap.traversal.script[key] = scriptArrayInner
 			}
 			// Always join nonScriptArrayInner back into the main tree (nonScriptFields)
@@ -1305,21 +1318,28 @@ func (jsonMap *JsonMap) Run() {
 			// Join the subtree back into the main tree
 			jsonMap.insides[key] = jsonInnerMap.insides
 		case []interface{}:
-			elementArray := element.([]interface{})
-			// Iterate over array and recurse on all objects that may be inside the array
-			for i, inner := range elementArray {
-				switch inner.(type) {
-				case map[string]interface{}:
-					jsonInnerInnerMap := NewFromMap(inner.(map[string]interface{}))
-					// Remember to update the scope path of the new JsonMap
-					_, _ = fmt.Fprintf(jsonInnerInnerMap.traversal.scopePath, "%s.%s.[%d]", jsonMap.traversal.scopePath.String(), key, i)
-					jsonInnerInnerMap.Run()
-					// Join the subtree back into the array
-					elementArray[i] = jsonInnerInnerMap.insides
-				}
-			}
+			// Recurse on all objects that may be inside the array
+			runArray(fmt.Sprintf("%s.%s", jsonMap.traversal.scopePath.String(), key), element.([]interface{}))
 			// Join array back into the main tree
-			jsonMap.insides[key] = elementArray
+			jsonMap.insides[key] = element
+		}
+	}
+}
+
+// Iterates over the array at the given path, running all objects that are inside it and the arrays nested in it.
+func runArray(path string, array []interface{}) {
+	for i, inner := range array {
+		// Remember to update the scope path
+		innerPath := fmt.Sprintf("%s.[%d]", path, i)
+		switch inner.(type) {
+		case map[string]interface{}:
+			jsonInnerMap := NewFromMap(inner.(map[string]interface{}))
+			_, _ = fmt.Fprint(jsonInnerMap.traversal.scopePath, innerPath)
+			jsonInnerMap.Run()
+			// Join the subtree back into the array
+			array[i] = jsonInnerMap.insides
+		case []interface{}:
+			runArray(innerPath, inner.([]interface{}))
 		}
 	}
 }
-- 
2.43.0


From 4f56c65245a5be3f6cfdc7a6303c4f18625a4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 17/49] fix: printing an object that refers back to itself
 overflowed the stack

---
 code/js/js.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 1fae7f0..bcb351f 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -31,8 +31,12 @@ var (
 var toBeCloned json_map.JsonMapInt
 
 // Used to map a JS Object from Otto into a map so that it can be used.
-func traverseObject(object *otto.Object) *map[string]interface{} {
+//
+// The parents are the objects that are currently being traversed. Any references back to these are not followed.
+func traverseObject(object *otto.Object, parents map[otto.Value]bool) *map[string]interface{} {
 	objectMap := make(map[string]interface{})
+	parents[object.Value()] = true
+	defer delete(parents, object.Value())
 
 	for _, key := range object.Keys() {
 		val, err := object.Get(key)
@@ -59,8 +63,12 @@ func traverseObject(object *otto.Object) *map[string]interface{} {
 			realVal = boolean
 		} else if val.IsObject() {
 			obj := val.Object()
-			objectMapInner := traverseObject(obj)
-			realVal = *objectMapInner
+			if parents[obj.Value()] {
+				realVal = "[Circular]"
+			} else {
+				objectMapInner := traverseObject(obj, parents)
+				realVal = *objectMapInner
+			}
 		}
 		objectMap[key] = realVal
 	}
@@ -85,7 +93,7 @@ func toGo(value otto.Value) (out interface{}) {
 			}
 		case value.IsObject():
 			obj := value.Object()
-			out = traverseObject(obj)
+			out = traverseObject(obj, make(map[otto.Value]bool))
 		case value.IsNull():
 			out = nil
 		case value.IsFunction():
-- 
2.43.0


From 2bdad37c4856f2dd9db5a25eff0d8bcb865748f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 18/49] fix: unbounded recursion in a script raises an
 exception instead of overflowing the Go stack

---
 code/js/js.go    | 2 ++
 globals/const.go | 2 ++
 jom/jom.go       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/code/js/js.go b/code/js/js.go
index bcb351f..32556a3 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -476,6 +476,8 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 	script := code.Script.(string)
 	// Create the VM and register all builtins
 	vm := otto.New()
+	// Unbounded recursion has to raise an exception within the VM before it can overflow the Go stack
+	vm.SetStackDepthLimit(globals.StackDepthLimit)
 	// Register all builtins
 	for _, builtin := range builtinFuncs {
 		if err := vm.Set(builtin.name, builtin.function); err != nil {
diff --git a/globals/const.go b/globals/const.go
index 560baa9..7045c57 100644
--- a/globals/const.go
+++ b/globals/const.go
@@ -16,6 +16,8 @@ const (
 	CurrentNodeLiteralVarName     = "__currentNodeLiteral__"
 	CurrentNodeValueVarName       = "__currentNode__"
 	ModifiedTrailValueVarName     = "__modifiedTrail__"
+	// The maximum depth of nested function calls within a script or filter expression.
+	StackDepthLimit               = 10000
 )
 
 // These are global variables that can be changed.
diff --git a/jom/jom.go b/jom/jom.go
index 768a1df..8602599 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -231,6 +231,8 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 		}
 	}
 	vm := otto.New()
+	// Unbounded recursion has to raise an exception within the VM before it can overflow the Go stack
+	vm.SetStackDepthLimit(globals.StackDepthLimit)
 
 	// Setup up an anonymous function which will make up our for loop body which iterates over our obj
 	loopBody := func(nodeIdx interface{}, node interface{}) (err error) {
-- 
2.43.0


From 548c023d197be5a0d84cc025fbfc2202c0fd3f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 19/49] fix: arrays and nested values given to setValues arrive
 as they are

---
 code/js/js.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/code/js/js.go b/code/js/js.go
index 32556a3..c5716f6 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -314,6 +314,21 @@ func jsonPathSelector(call otto.FunctionCall) otto.Value {
 			valueGo = reflect.Indirect(reflect.ValueOf(valueGo)).Interface()
 		}
 
+		// Objects and arrays are passed through JSON, like json.trail is, so that they arrive as they are
+		if value.IsObject() && !value.IsFunction() {
+			var valueString otto.Value
+			valueString, err = call.Otto.Call("JSON.stringify", nil, value)
+			if err != nil {
+				throw(err.Error())
+			}
+			if valueString.IsString() {
+				valueGo = nil
+				if err = json.Unmarshal([]byte(valueString.String()), &valueGo); err != nil {
+					throw(err.Error())
+				}
+			}
+		}
+
 		// Then we call SetAbsolutePaths
 		// NOTE: This is referencing the absolute paths from outside the scope of this function but this doesn't matter
 		//       because if the user has changed the JSON structure for the worse then its kinda their fault for using
-- 
2.43.0


From 0ed57824241850aa5acd91bf03ccc182b9babec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 20/49] fix: the timer of a filter evaluation stopped the
 evaluation of later nodes

---
 jom/jom.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 8602599..fc99fd4 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -288,15 +288,18 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 				}
 			}()
 
-			vm.Interrupt = make(chan func(), 1)
+			// Each evaluation has its own interrupt so that its timer can never stop the evaluation of another node
+			interrupt := make(chan func(), 1)
+			vm.Interrupt = interrupt
+			defer func() { vm.Interrupt = nil }()
 
 			// Start the timer
-			go func() {
-				time.Sleep(1 * globals.HaltingDelayUnits)
-				vm.Interrupt <- func() {
+			timer := time.AfterFunc(1 * globals.HaltingDelayUnits, func() {
+				interrupt <- func() {
 					panic(globals.HaltingProblem)
 				}
-			}()
+			})
+			defer timer.Stop()
 			// NOTE: how we wrap the expression in !!() this is to try to convert to boolean
 			currentExpression = fmt.Sprintf("!!(%s)", currentExpression)
 			expressionReturn, err = vm.Run(currentExpression)
-- 
2.43.0


From 24c143f108cd5bce88595e9f446bb9cf8b81e720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 21/49] fix: the timer of a Go callback never ended

---
 code/go/go.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/go/go.go b/code/go/go.go
index e085457..85d8444 100644
--- a/code/go/go.go
+++ b/code/go/go.go
@@ -33,7 +33,8 @@ func init() {
 func RunCallback(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
 	// Get the callback from the code object
 	callback := code.Script.(func(json json_map.JsonMapInt))
-	interrupts := make(chan func() bool)
+	// Buffered so that neither the callback nor the timer has to wait for its interrupt to be read
+	interrupts := make(chan func() bool, 2)
 
 	// Construct a wrapper around the callback which will write to the interrupts channel once finished
 	callbackSafe := func() {
-- 
2.43.0


From c8c5cbf63ec2f38c1d5785e757d13983ed0547e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 22/49] fix: documents evaluated in parallel shared the
 document used by jsonPathSelector

---
 code/js/js.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index c5716f6..8866054 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -28,8 +28,6 @@ var (
 	ExternalConsoleLogStderr io.Writer = os.Stderr
 )
 
-var toBeCloned json_map.JsonMapInt
-
 // Used to map a JS Object from Otto into a map so that it can be used.
 //
 // The parents are the objects that are currently being traversed. Any references back to these are not followed.
@@ -157,7 +155,7 @@ func composePrint(call otto.FunctionCall) *strings.Builder {
 // • json_map.AbsolutePaths will be converted into JS values.
 //
 // • The returned object will be constructed (_absolutePaths, getValues, setValues).
-func jsonPathSelector(call otto.FunctionCall) otto.Value {
+func jsonPathSelector(toBeCloned json_map.JsonMapInt, call otto.FunctionCall) otto.Value {
 	var err error
 	vm := call.Otto
 
@@ -387,7 +385,9 @@ var builtinVars = []struct{
 		}
 		jom := map[string]interface{} {
 			"trail": trail,
-			"jsonPathSelector": jsonPathSelector,
+			"jsonPathSelector": func(call otto.FunctionCall) otto.Value {
+				return jsonPathSelector(jsonMap, call)
+			},
 			"scopePath": jsonMap.GetCurrentScopePath(),
 		}
 		if val, err := runtime.ToValue(jom); err != nil {
@@ -487,7 +487,6 @@ func deJomIfy(jsonMap json_map.JsonMapInt, env *otto.Otto) (data json_map.JsonMa
 //
 // • The new json_map.JsonMapInt is returned.
 func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error) {
-	toBeCloned = jsonMap
 	script := code.Script.(string)
 	// Create the VM and register all builtins
 	vm := otto.New()
-- 
2.43.0


From 4af1825fc49cef5837ea544c6c7d9a381b16f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 23/49] fix: a negative index given to MustPop made it ignore
 all other indices

---
 jom/jom.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index fc99fd4..caf1706 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1516,6 +1516,11 @@ func (jsonMap *JsonMap) MustPop(jsonPath string, indices... int) (popped []inter
 	popped = make([]interface{}, 0)
 	newArr := make([]interface{}, 0)
 
+	// Negative indices are never reached so they have to be skipped
+	for len(indices) > 1 && indices[0] < 0 {
+		indices = indices[1:]
+	}
+
 	var currIdx int
 	currIdx, indices = indices[0], indices[1:]
 
-- 
2.43.0


From a5832a375eca2417f44dd9def9f7152f39465f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 24/49] fix: MustPush can push to an empty array

---
 jom/jom.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index caf1706..52ac4f6 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1457,6 +1457,23 @@ func (jsonMap *JsonMap) MustDelete(jsonPath string) {
 	jsonMap.MustSet(jsonPath, nil)
 }
 
+// Whether the JSON path consists only of keys, indices and first descents. If there are no nodes at such a path, and no
+// errors occur when selecting it, then it leads to an empty array.
+func isSinglePath(jsonPath string) bool {
+	paths, err := json_map.ParseJsonPath(jsonPath)
+	if err != nil || len(paths) != 1 {
+		return false
+	}
+	for _, key := range paths[0] {
+		switch key.KeyType {
+		case json_map.StringKey, json_map.IndexKey, json_map.First:
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 // Pushes to an []interface{} indicated by the given JSON path at the given indices and panics if any errors occur.
 //
 // Note: This assumes that the JSON path points to an array and will use JsonPathSetter to set the JSON path to be the array selected + the pushed values.
@@ -1472,7 +1489,7 @@ func (jsonMap *JsonMap) MustDelete(jsonPath string) {
 // • If a given index is greater than the length of the array to insert to, all empty spaces will be filled with nil.
 func (jsonMap *JsonMap) MustPush(jsonPath string, value interface{}, indices... int) {
 	nodes := jsonMap.MustGet(jsonPath)
-	if nodes == nil {
+	if nodes == nil && !isSinglePath(jsonPath) {
 		panic(errors.New(fmt.Sprintf("no node at \"%s\" to push to", jsonPath)))
 	}
 
-- 
2.43.0


From 7b8e3782cf4b438885a886484eda99bcd7041b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 25/49] fix: a clone no longer shares its contents with the
 original and keeps an array at its root

---
 jom/jom.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 52ac4f6..6e5fede 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -83,10 +83,11 @@ func NewFromMap(jsonMap map[string]interface{}) *JsonMap {
 // Note: This is primarily used when using json_map.JsonMapInt to return a new JsonMap to avoid cyclic imports.
 func (jsonMap *JsonMap) Clone(clear bool) json_map.JsonMapInt {
 	if !clear {
-		return &JsonMap{
-			insides:   jsonMap.insides,
-			traversal: jsonMap.traversal,
-		}
+		clone := New()
+		clone.insides = copyValue(jsonMap.insides).(map[string]interface{})
+		clone.Array = jsonMap.Array
+		clone.traversal.scopePath.WriteString(jsonMap.GetCurrentScopePath())
+		return clone
 	}
 	cleared := New()
 	// The cleared Array still inherits the Array field from the Cloned Array
-- 
2.43.0


From 6966f337a0b1e690ff80ae441311e3eaa54a9721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 26/49] fix: loading into a JsonMap that held an array ignored
 errors and kept the array

---
 jom/jom.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 6e5fede..579ba7a 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1356,18 +1356,17 @@ func (jsonMap *JsonMap) Unmarshal(jsonBytes []byte) (err error) {
 	if err = hjson.Unmarshal(jsonBytes, &jsonMap.insides); err != nil {
 		// FIXME Find a better way of handling JSON with an array at their root
 		if strings.Contains(err.Error(), "value of type []interface {} is not assignable to type map[string]interface {}") {
-			jsonMap.Array = true
 			// Create an "array" key within jsonMap.insides that will contain the unmarshalled array
 			// When Marshalling into JSON check if this hack was used and deal with it accordingly
 			var rootArray []interface{}
 			if err = hjson.Unmarshal(jsonBytes, &rootArray); err == nil {
-				jsonMap.insides["array"] = rootArray
+				jsonMap.insides = map[string]interface{}{"array": rootArray}
+				jsonMap.Array = true
 			}
 		}
-		if !jsonMap.Array {
-			return err
-		}
+		return err
 	}
+	jsonMap.Array = false
 	return nil
 }
 
-- 
2.43.0


From 0ba25fe6493e895070e60d585fabe1a89a75dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 27/49] fix: a shebang that is not followed by a newline is not
 a script

---
 code/code.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/code.go b/code/code.go
index 3e70371..d282a2d 100644
--- a/code/code.go
+++ b/code/code.go
@@ -74,6 +74,10 @@ func NewFrom(from interface{}) (code Code, ok bool) {
 		script := from.(string)
 		firstLine := strings.Split(script, "\n")[0]
 		firstLen := len(firstLine)
+		// The shebang has to be followed by a newline
+		if firstLen == len(script) {
+			break
+		}
 
 		// First check the bounds of the line so that we won't panic
 		if firstLen >= globals.ShebangLen + globals.ShortestSupportedScriptTagLen && firstLen <= globals.ShebangLen + globals.LongestSupportedScriptTagLen {
-- 
2.43.0


From 134e81123445286054faaf3046ea3fcb7ac370ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 28/49] fix: the command line outputs its files in the order
 given

---
 json-dom.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/json-dom.go b/json-dom.go
index fb6d6d3..246359c 100644
--- a/json-dom.go
+++ b/json-dom.go
@@ -13,6 +13,7 @@ import (
 	"github.com/andygello555/json-dom/jom/json_map"
 	"io/ioutil"
 	"os"
+	"sort"
 	"strings"
 	"unicode/utf8"
 )
@@ -175,7 +176,12 @@ func main() {
 			filesPtr := element["files"].(*Files)
 			inputPtr := element["input"].(*string)
 
-			dataSet := make(map[string][]byte, 0)
+			// The inputs in the order that they were given
+			type namedData struct {
+				name string
+				data []byte
+			}
+			dataSet := make([]namedData, 0)
 			if len(*filesPtr) != 0 || *inputPtr != "" {
 				// If both a file and a stdin input is given then evaluate the files first
 				var data []byte
@@ -207,12 +213,12 @@ func main() {
 						if err != nil {
 							globals.ReadFileErr.Handle(err)
 						}
-						dataSet[file] = data
+						dataSet = append(dataSet, namedData{file, data})
 					}
 				} else {
 					// Convert the input to a byte buffer
 					data = []byte(*inputPtr)
-					dataSet["stdin"] = data
+					dataSet = append(dataSet, namedData{"stdin", data})
 				}
 			} else {
 				// Files and input not given so throw RequiredFlagErr
@@ -220,9 +226,10 @@ func main() {
 					element["flagSet"].(*flag.FlagSet))
 			}
 
-			for dataName, data := range dataSet {
+			for _, input := range dataSet {
+				data := input.data
 				if verbose {
-					fmt.Printf("\n%s:\n", dataName)
+					fmt.Printf("\n%s:\n", input.name)
 				}
 				switch subcommand {
 				case "eval":
@@ -263,8 +270,14 @@ func main() {
 					}
 
 					// Run the Markup for all paths
-					for path, script := range *pathScripts {
-						err = jsonMap.MarkupCode(path, *language, script)
+					// (in the order of the paths so that the outcome is always the same)
+					paths := make([]string, 0)
+					for path := range *pathScripts {
+						paths = append(paths, path)
+					}
+					sort.Strings(paths)
+					for _, path := range paths {
+						err = jsonMap.MarkupCode(path, *language, (*pathScripts)[path])
 						if err != nil {
 							globals.MarkupErr.Handle(err)
 						}
-- 
2.43.0


From e427e88a37df4902f6f3aa1fe89723cf7cbdd7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 29/49] fix: non-ASCII characters of a filter that contains a
 JSON path were mangled

---
 jom/jom.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 579ba7a..12b0f69 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -193,7 +193,13 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 	// Replace all the occurrences of any JSON path expression within the filter expression with the
 	// literal evaluation of each JSON path calculated above
 	if len(jsonPathIndices) > 0 {
-		filterExp = []byte(str.ReplaceCharIndexRange(string(filterExp), jsonPathIndices, jsonPathLiterals...))
+		replaced := make([]byte, 0)
+		last := 0
+		for i, jsonPathLoc := range jsonPathIndices {
+			replaced = append(append(replaced, filterExp[last:jsonPathLoc[0]]...), jsonPathLiterals[i]...)
+			last = jsonPathLoc[1]
+		}
+		filterExp = append(replaced, filterExp[last:]...)
 		// All string literal locations also have to be recalculated as there were changes made to the
 		// filter expression
 		stringLiteralLocs = stringLiterals.FindAllIndex(filterExp, -1)
-- 
2.43.0


From 360bcdb439f6d3f90b1303c1cf20fa356e9c9c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 30/49] fix: a string literal in a filter can contain the other
 kind of quote

---
 jom/jom.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jom/jom.go b/jom/jom.go
index 12b0f69..cbf947b 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -116,7 +116,7 @@ func (jsonMap *JsonMap) GetInsides() *map[string]interface{} {
 func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interface{}, mapType bool, returnIndices bool) (truers interface{}, err error) {
 	// For Filters we first have to replace all all @ chars with the current node that has been Marshalled
 	// into JSON then JSON.parse-d. And we have to also replace all the JSON paths with calculated literals
-	stringLiterals := regexp.MustCompile("['\"]([^\\\\\"']|\\\\.)*['\"]")
+	stringLiterals := regexp.MustCompile("'([^\\\\']|\\\\.)*'|\"([^\\\\\"]|\\\\.)*\"")
 	jsonPathRegex := regexp.MustCompile("\\$[.\\[][^'\"\\n\\r\\s]+")
 
 	// Get the locations of the start and end of all string literals
-- 
2.43.0


From 043665133935be9f525483ecf3594dc2c2aab27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 31/49] fix: the text of a JsonMap with keys or strings that
 Hjson cannot write did not read back

---
 jom/jom.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index cbf947b..5ddabe0 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1564,18 +1564,33 @@ func (jsonMap *JsonMap) MustPop(jsonPath string, indices... int) (popped []inter
 }
 
 // Marshals the JsonMap into hjson and returns the stringified byte array.
+//
+// Not every key and string can be read back from the hjson that is written for it. If this is the case then JSON, which
+// is also valid hjson, is returned instead.
 func (jsonMap *JsonMap) String() string {
-	var err error
-	var out []byte
-	if !jsonMap.Array {
-		out, err = hjson.Marshal(jsonMap.insides)
-	} else {
+	var value interface{} = jsonMap.insides
+	if jsonMap.Array {
 		// FIXME: Handle the root array hack
-		out, err = hjson.Marshal(jsonMap.insides["array"])
+		value = jsonMap.insides["array"]
 	}
+	out, err := hjson.Marshal(value)
 	if err != nil {
 		panic(err)
 	}
+
+	// A JsonMap that cannot be marshalled into JSON (because of Go callbacks) cannot be read back in any case
+	if expected, err := json.Marshal(value); err == nil {
+		reloaded := New()
+		var actual []byte
+		if err = reloaded.Unmarshal(out); err == nil {
+			actual, err = reloaded.Marshal()
+		}
+		if err != nil || string(actual) != string(expected) {
+			if indented, err := json.MarshalIndent(value, "", "  "); err == nil {
+				out = indented
+			}
+		}
+	}
 	return string(out)
 }
 
-- 
2.43.0


From da1e17f006c4e978d739009088a8cf35255a3165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 32/49] fix: a JSON path that does not start with the root
 symbol is refused

---
 jom/json_map/json_path_parse.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jom/json_map/json_path_parse.go b/jom/json_map/json_path_parse.go
index 7d39908..d1ff75b 100644
--- a/jom/json_map/json_path_parse.go
+++ b/jom/json_map/json_path_parse.go
@@ -329,8 +329,7 @@ func ParseJsonPath(jsonPath string) (absolutePaths AbsolutePaths, err error) {
 		occurrences := currentState.findIndex(next)
 		// If there are no occurrences found or the occurrence doesn't start at the beginning of the buffer then error out
 		if len(occurrences) == 0 || occurrences[0] != 0 {
-			err = globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
-			break
+			return nil, globals.JsonPathError.FillError(fmt.Sprintf("%s token does not come after %s", currentState.name, previousState.name))
 		}
 
 		// Consume len(token) number of bytes
-- 
2.43.0


From f1bfb55dcc8399f339f4071d800c606ee31af279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 33/49] fix: a script that leaves null as its trail is an error

---
 code/js/js.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/js/js.go b/code/js/js.go
index 8866054..2d8dac2 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -466,6 +466,10 @@ func deJomIfy(jsonMap json_map.JsonMapInt, env *otto.Otto) (data json_map.JsonMa
 	if err := json.Unmarshal([]byte(run.String()), data.GetInsides()); err != nil {
 		return nil, err
 	}
+	// A trail that is null (or is null in JSON: like NaN) is no object either, but is Unmarshalled without an error
+	if *data.GetInsides() == nil {
+		return nil, fmt.Errorf("%s.trail is not an object: \"%s\"", globals.JOMVariableName, run.String())
+	}
 	return data, nil
 }
 
-- 
2.43.0


From b0023e8ecf7c621c380aacace7a47d6120a861e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 34/49] fix: surrogate pairs in the strings of JSON text were
 lost when loading

---
 jom/jom.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 5ddabe0..d53eb15 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1358,6 +1358,19 @@ func runArray(path string, array []interface{}) {
 
 // Unmarshal a hjson byte string and package it as a JsonMap.
 func (jsonMap *JsonMap) Unmarshal(jsonBytes []byte) (err error) {
+	// Text that is plain JSON is decoded as such, because the surrogate pairs of JSON strings are unknown to Hjson
+	var plain interface{}
+	if json.Unmarshal(jsonBytes, &plain) == nil {
+		switch root := plain.(type) {
+		case map[string]interface{}:
+			jsonMap.insides, jsonMap.Array = root, false
+			return nil
+		case []interface{}:
+			jsonMap.insides, jsonMap.Array = map[string]interface{}{"array": root}, true
+			return nil
+		}
+	}
+
 	// Decode and a check for errors.
 	if err = hjson.Unmarshal(jsonBytes, &jsonMap.insides); err != nil {
 		// FIXME Find a better way of handling JSON with an array at their root
-- 
2.43.0


From a7f43ff979bd84dfbeb47a708442aac9a924e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 35/49] fix: code run through the trail or selected values
 escapes the interrupt and the stack limit

The trail and the values of a NodeSet belonged to VMs of their own: the compare
function of json.trail.a.sort(f) ran within a VM that has neither, so that an
infinite loop was never stopped and an infinite recursion overflowed the stack.
---
 code/js/js.go | 77 ++++++++++++++++++++++-----------------------------
 1 file changed, 33 insertions(+), 44 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 2d8dac2..d33c53b 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -155,7 +155,7 @@ func composePrint(call otto.FunctionCall) *strings.Builder {
 // • json_map.AbsolutePaths will be converted into JS values.
 //
 // • The returned object will be constructed (_absolutePaths, getValues, setValues).
-func jsonPathSelector(toBeCloned json_map.JsonMapInt, call otto.FunctionCall) otto.Value {
+func jsonPathSelector(toBeCloned json_map.JsonMapInt, jsonParse otto.Value, call otto.FunctionCall) otto.Value {
 	var err error
 	vm := call.Otto
 
@@ -206,25 +206,22 @@ func jsonPathSelector(toBeCloned json_map.JsonMapInt, call otto.FunctionCall) ot
 		throw(err.Error())
 	}
 
-	// Set up a temporary vm which we will use to construct the NodeSet
-	vmTemp := otto.New()
-
-	// Temp function to push a value to an array stored in the given variable name.
-	// This will first marshall the value into a JSON value in Go then parse the []byte to the VM which will use
-	// JSON.parse to parse the value and then push it to the array of the given name.
-	pushValue := func(arrName string, value interface{}) {
+	// Converts a Go value to a JS value. This will first marshall the value into a JSON value in Go then pass the []byte
+	// to the VM which will use JSON.parse to parse the value.
+	// NOTE: The values must belong to the VM of the script. Otherwise anything that is called through them runs within
+	//       another VM which has no stack depth limit and cannot be interrupted.
+	parseValue := func(value interface{}) otto.Value {
 		var valueStr []byte
 		valueStr, err = json.Marshal(value)
 		if err != nil {
 			throw(fmt.Sprintf("cannot Marshal value: \"%v\"", value))
 		}
-		// Then push the value to the nodeSet array within the VM
-		currentName := fmt.Sprintf("%sCurrStr", arrName)
-		_ = vmTemp.Set(currentName, string(valueStr))
-		_, err = vmTemp.Run(fmt.Sprintf("%s.push(JSON.parse(%s))", arrName, currentName))
+		var parsed otto.Value
+		parsed, err = jsonParse.Call(otto.NullValue(), string(valueStr))
 		if err != nil {
-			throw(fmt.Sprintf("could not push current node: \"%v\", to %s", string(valueStr), arrName))
+			throw(fmt.Sprintf("cannot parse value: \"%v\"", string(valueStr)))
 		}
+		return parsed
 	}
 
 	var setupKeyObject func(path json_map.AbsolutePathKey) map[string]interface{}
@@ -235,11 +232,11 @@ func jsonPathSelector(toBeCloned json_map.JsonMapInt, call otto.FunctionCall) ot
 		switch path.KeyType {
 		case json_map.Slice:
 			// In cases of slices we have to setup a new array
-			_, _ = vmTemp.Run("sliceArray = []")
+			sliceArray := make([]interface{}, 0)
 			for _, slice := range path.Value.([]json_map.AbsolutePathKey) {
-				pushValue("sliceArray", setupKeyObject(slice))
+				sliceArray = append(sliceArray, setupKeyObject(slice))
 			}
-			absolutePathKeyMap["key"], _ = vmTemp.Get("sliceArray")
+			absolutePathKeyMap["key"] = sliceArray
 		default:
 			absolutePathKeyMap["key"] = path.Value
 		}
@@ -249,30 +246,21 @@ func jsonPathSelector(toBeCloned json_map.JsonMapInt, call otto.FunctionCall) ot
 	// Create a node set map which will store the object we need to return
 	nodeSetMap := make(map[string]interface{})
 
-	_, _ = vmTemp.Run("absoluteValues = []")
+	absoluteValues := make([]interface{}, 0)
 	for _, paths := range absolutePaths {
-		_, _ = vmTemp.Run("currentPath = []")
+		currentPath := make([]interface{}, 0)
 		for _, path := range paths {
-			pathMap := setupKeyObject(path)
-			var value otto.Value
-			value, err = vmTemp.ToValue(pathMap)
-			if err != nil {
-				throw(err.Error())
-			}
-			_ = vmTemp.Set("currentKey", value)
-			// Append to array
-			_, _ = vmTemp.Run("currentPath.push(currentKey)")
+			currentPath = append(currentPath, setupKeyObject(path))
 		}
 		// Append the current path to the absolute paths array
-		_, _ = vmTemp.Run("absoluteValues.push(currentPath)")
+		absoluteValues = append(absoluteValues, currentPath)
 	}
-	nodeSetMap["_absolutePaths"], _ = vmTemp.Get("absoluteValues")
+	nodeSetMap["_absolutePaths"] = parseValue(absoluteValues)
 
 	// Set getter and setter funcs
 	nodeSetMap["getValues"] = func(call otto.FunctionCall) otto.Value {
 		// Get the most "up to date" json map from json.trail
 		jsonMap := getJsonMap(call.Otto)
-		_, _ = vmTemp.Run("nodeValues = []")
 		nodes := getAbsPaths(&absolutePaths, jsonMap)
 
 		// Expand the first element if we only have one element and its an array
@@ -290,11 +278,11 @@ func jsonPathSelector(toBeCloned json_map.JsonMapInt, call otto.FunctionCall) ot
 			}
 		}
 
+		nodeValues := make([]interface{}, 0)
 		for _, value := range nodes {
-			pushValue("nodeValues", value.Value)
+			nodeValues = append(nodeValues, value.Value)
 		}
-		nodeValues, _ := vmTemp.Get("nodeValues")
-		return nodeValues
+		return parseValue(nodeValues)
 	}
 
 	nodeSetMap["setValues"] = func(call otto.FunctionCall) otto.Value {
@@ -338,7 +326,7 @@ func jsonPathSelector(toBeCloned json_map.JsonMapInt, call otto.FunctionCall) ot
 
 		// Then we update the current json.trail object with the createJom function which will recreate the jom
 		var trail otto.Value
-		trail, err = createJom(jsonMap)
+		trail, err = createJom(jsonParse, jsonMap)
 		if err != nil {
 			throw("Could not JOM-ify modified JsonMap")
 		}
@@ -379,14 +367,19 @@ var builtinVars = []struct{
 	{globals.JOMVariableName, func(i ...interface{}) interface{} {
 		runtime := i[0].(*otto.Otto)
 		jsonMap := i[1].(json_map.JsonMapInt)
-		trail, err := createJom(jsonMap)
+		// Kept so that JSON can still be parsed after JSON.parse has been overridden
+		jsonParse, err := runtime.Run("JSON.parse")
+		if err != nil {
+			panic(globals.BuiltinGetterError.FillError("json", "Could not find JSON.parse", err.Error()))
+		}
+		trail, err := createJom(jsonParse, jsonMap)
 		if err != nil {
 			panic(globals.BuiltinGetterError.FillError("json.trail", "Could not JOM-ify", err.Error()))
 		}
 		jom := map[string]interface{} {
 			"trail": trail,
 			"jsonPathSelector": func(call otto.FunctionCall) otto.Value {
-				return jsonPathSelector(jsonMap, call)
+				return jsonPathSelector(jsonMap, jsonParse, call)
 			},
 			"scopePath": jsonMap.GetCurrentScopePath(),
 		}
@@ -422,23 +415,19 @@ var builtinVars = []struct{
 //
 // This will create a JOM for the scope of the given json map.
 // Note: This needs to be used to correctly parse Go arrays ([]interface{}) as JS arrays and not JS objects.
+// The given value is the JSON.parse function of the VM which will run the scripts.
 // Returns an otto.Value which can be plugged into the VM which will run the scripts. If an error occurs at any point.
 // then an otto.NullValue and the error are returned.
-func createJom(jsonMap json_map.JsonMapInt) (run otto.Value, err error) {
+func createJom(jsonParse otto.Value, jsonMap json_map.JsonMapInt) (run otto.Value, err error) {
 	// Convert the map to json
 	var jsonDataBytes []byte
 	jsonDataBytes, err = json.Marshal(jsonMap.GetInsides())
 	if err != nil {
 		return otto.NullValue(), err
 	}
-	jsonData := string(jsonDataBytes)
 
-	// Create a VM, parse the json string and get the value out of the VM
-	vm := otto.New()
-	if err := vm.Set("jsonString", jsonData); err != nil {
-		return otto.NullValue(), err
-	}
-	run, err = vm.Run("JSON.parse(jsonString)")
+	// Parse the json string within the VM
+	run, err = jsonParse.Call(otto.NullValue(), string(jsonDataBytes))
 	if err != nil {
 		return otto.NullValue(), err
 	}
-- 
2.43.0


From 295fe2c439cf90a1ba6236d606f05c8eae34925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 36/49] fix: loops that the Javascript VM never interrupts are
 given up on

for (;;) {} is run without looking for the interrupt, so that a script or filter
with it never returned.
---
 code/js/js.go | 48 ++++++++++++++++++++++++++++++++++++++----------
 jom/jom.go    | 30 +++++++++++++++++++++++++++++-
 2 files changed, 67 insertions(+), 11 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index d33c53b..1b27a2b 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -535,17 +535,45 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 			panic(globals.HaltingProblem)
 		}
 	}()
-	// Run the script
-	_, err = vm.Run(script)
-	if err != nil {
-		// Re-wrap the error as a ScriptError
-		return nil, globals.ScriptError.FillError(err.Error(), fmt.Sprintf(globals.ScriptErrorFormatString, jsonMap.GetCurrentScopePath(), script))
+
+	// The script is run in a goroutine of its own, so that scripts which never look for the interrupt can be given up on:
+	// "for (;;) {}" has neither a statement nor an expression for the VM to evaluate.
+	// NOTE: If that happens then there will be a goroutine running the script until it has finished, which may be never.
+	type outcome struct {
+		data   json_map.JsonMapInt
+		err    error
+		caught interface{}
 	}
+	// (buffered so that neither the goroutine nor the timer has to wait for it to be read)
+	finished := make(chan outcome, 2)
+	go func() {
+		var out outcome
+		// Any panics are passed on so that they panic again in the outer scope
+		defer func() {
+			out.caught = recover()
+			finished <- out
+		}()
+		// Run the script
+		if _, out.err = vm.Run(script); out.err != nil {
+			// Re-wrap the error as a ScriptError
+			out.err = globals.ScriptError.FillError(out.err.Error(), fmt.Sprintf(globals.ScriptErrorFormatString, jsonMap.GetCurrentScopePath(), script))
+			return
+		}
+		// De-JOM-ify the environment and return the json_map.JsonMapInt
+		out.data, out.err = deJomIfy(jsonMap, vm)
+	}()
 
-	// De-JOM-ify the environment and return the json_map.JsonMapInt
-	data, err = deJomIfy(jsonMap, vm)
-	if err != nil {
-		return nil, err
+	// Give the interrupt the time to be noticed before giving up on the script
+	giveUp := time.AfterFunc(time.Duration(globals.HaltingDelay + 1) * globals.HaltingDelayUnits, func() {
+		finished <- outcome{caught: globals.HaltingProblem}
+	})
+	defer giveUp.Stop()
+	out := <-finished
+	if out.caught != nil {
+		panic(out.caught)
 	}
-	return data, nil
+	if out.err != nil {
+		return nil, out.err
+	}
+	return out.data, nil
 }
diff --git a/jom/jom.go b/jom/jom.go
index d53eb15..669de7b 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -309,7 +309,35 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 			defer timer.Stop()
 			// NOTE: how we wrap the expression in !!() this is to try to convert to boolean
 			currentExpression = fmt.Sprintf("!!(%s)", currentExpression)
-			expressionReturn, err = vm.Run(currentExpression)
+			// The expression is run in a goroutine of its own, so that expressions which never look for the interrupt
+			// can be given up on: "for (;;) {}" has neither a statement nor an expression for the VM to evaluate.
+			type outcome struct {
+				value  otto.Value
+				err    error
+				caught interface{}
+			}
+			// (buffered so that neither the goroutine nor the timer has to wait for it to be read)
+			finished := make(chan outcome, 2)
+			go func() {
+				var out outcome
+				// Any panics are passed on so that they panic again in the outer scope
+				defer func() {
+					out.caught = recover()
+					finished <- out
+				}()
+				out.value, out.err = vm.Run(currentExpression)
+			}()
+
+			// Give the interrupt the time to be noticed before giving up on the expression
+			giveUp := time.AfterFunc(2 * globals.HaltingDelayUnits, func() {
+				finished <- outcome{caught: globals.HaltingProblem}
+			})
+			defer giveUp.Stop()
+			out := <-finished
+			if out.caught != nil {
+				panic(out.caught)
+			}
+			expressionReturn, err = out.value, out.err
 		}()
 		if err != nil {
 			return err
-- 
2.43.0


From 4dcbb6a4593d5af6f34c0e832afeee513b72bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 37/49] fix: the markup command crashed when stripping a script
 in an unsupported language

---
 json-dom.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/json-dom.go b/json-dom.go
index 246359c..5b9b3b0 100644
--- a/json-dom.go
+++ b/json-dom.go
@@ -87,6 +87,17 @@ func (jpscp *JsonPathScriptPair) Set(value string) error {
 	return nil
 }
 
+// Strips the given JsonMap. Returns an error if it contains a script in an unsupported language (Strip panics then).
+func strip(jsonMap *jom.JsonMap) (err error) {
+	defer func() {
+		if caught := recover(); caught != nil {
+			err = errors.New(fmt.Sprint(caught))
+		}
+	}()
+	jsonMap.Strip()
+	return err
+}
+
 // usage: json-dom { eval | markup [-language <language>] [-eval] [-strip] <key>:<value>,... } { -input <input> | -files <file>... } [-verbose]
 
 func main() {
@@ -245,7 +256,7 @@ func main() {
 					pathScripts := element["path-scripts"].(*JsonPathScriptPair)
 					language := element["language"].(*string)
 					eval := element["eval"].(*bool)
-					strip := element["strip"].(*bool)
+					stripFlag := element["strip"].(*bool)
 
 					// Check if any JSONPath-script pairs are present
 					if len(*pathScripts) == 0 {
@@ -265,8 +276,10 @@ func main() {
 					}
 
 					// Strip script key-value pairs if strip flag is set
-					if *strip {
-						jsonMap.Strip()
+					if *stripFlag {
+						if err = strip(jsonMap); err != nil {
+							globals.MarkupErr.Handle(err)
+						}
 					}
 
 					// Run the Markup for all paths
-- 
2.43.0


From 8fe96f9e37c1d6cce588ec1d387e0cd3d10ad9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:02 +0000
Subject: [PATCH 38/49] fix: an error of a filter is not hidden by the steps
 after it

---
 jom/jom.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jom/jom.go b/jom/jom.go
index 669de7b..8b91a5d 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -453,6 +453,7 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 
 
 	// Iterate through the absolute path keys
+descent:
 	for _, key := range path {
 		// StartEnd KeyTypes must be within a Slice key type so throw an error if so
 		if key.KeyType == json_map.StartEnd {
@@ -501,7 +502,9 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 				var filterErr error
 				currValue, filterErr = filterRunner(m, filterExp, jsonMap, true, false)
 				if filterErr != nil {
+					// (nothing can be found beyond it, and the steps after it would only hide why it failed)
 					err = filterErr
+					break descent
 				}
 			case json_map.First:
 				// Similar as with the wildcards we sort the keys alphabetically then set the value of the first, THAT
@@ -567,7 +570,9 @@ func pathFinder(path []json_map.AbsolutePathKey, jsonMap map[string]interface{},
 				var filterErr error
 				currValue, filterErr = filterRunner(arr, filterExp, jsonMap, false, false)
 				if filterErr != nil {
+					// (nothing can be found beyond it, and the steps after it would only hide why it failed)
 					err = filterErr
+					break descent
 				}
 			case json_map.First:
 				err = globals.JsonPathError.FillError("Cannot recurse into an array")
-- 
2.43.0


From 9bf6aee9bf29a39cdeec716c443a7071e307490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:38 +0000
Subject: [PATCH 39/49] fix: an exception of a getter can be caught by the
 script that prints or sets its object

---
 code/js/js.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/js/js.go b/code/js/js.go
index 1b27a2b..3c0615b 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -39,7 +39,9 @@ func traverseObject(object *otto.Object, parents map[otto.Value]bool) *map[strin
 	for _, key := range object.Keys() {
 		val, err := object.Get(key)
 		if err != nil {
-			panic(err)
+			// Only the panics of values can be caught by the script, which a getter that throws must not end
+			message, _ := otto.ToValue(err.Error())
+			panic(message)
 		}
 
 		var realVal interface{} = val
-- 
2.43.0


From fc387304c59a4ee7d392130bd60dcd237355cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:16 +0000
Subject: [PATCH 40/49] fix: scripts and filters saw the members of objects in
 a different order each time

---
 code/js/js.go            | 15 +++++++++--
 jom/jom.go               | 14 +++++++---
 jom/json_map/js_value.go | 57 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 81 insertions(+), 5 deletions(-)
 create mode 100644 jom/json_map/js_value.go

diff --git a/code/js/js.go b/code/js/js.go
index 3c0615b..a56d40b 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -219,7 +219,7 @@ func jsonPathSelector(toBeCloned json_map.JsonMapInt, jsonParse otto.Value, call
 			throw(fmt.Sprintf("cannot Marshal value: \"%v\"", value))
 		}
 		var parsed otto.Value
-		parsed, err = jsonParse.Call(otto.NullValue(), string(valueStr))
+		parsed, err = parseJson(jsonParse, valueStr)
 		if err != nil {
 			throw(fmt.Sprintf("cannot parse value: \"%v\"", string(valueStr)))
 		}
@@ -413,6 +413,17 @@ var builtinVars = []struct{
 	}},
 }
 
+// Parses the given JSON within the VM that the given JSON.parse function belongs to.
+//
+// JSON.parse itself gives the members of objects in a different order each time.
+func parseJson(jsonParse otto.Value, jsonBytes []byte) (value otto.Value, err error) {
+	var decoded interface{}
+	if err = json.Unmarshal(jsonBytes, &decoded); err != nil {
+		return otto.NullValue(), err
+	}
+	return json_map.ToJsValue(jsonParse, decoded)
+}
+
 // Create the JOM within a Javascript VM, assign all necessary functions and retrieve the variable from within the VM.
 //
 // This will create a JOM for the scope of the given json map.
@@ -429,7 +440,7 @@ func createJom(jsonParse otto.Value, jsonMap json_map.JsonMapInt) (run otto.Valu
 	}
 
 	// Parse the json string within the VM
-	run, err = jsonParse.Call(otto.NullValue(), string(jsonDataBytes))
+	run, err = parseJson(jsonParse, jsonDataBytes)
 	if err != nil {
 		return otto.NullValue(), err
 	}
diff --git a/jom/jom.go b/jom/jom.go
index 8b91a5d..4c759b3 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -252,14 +252,22 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 			if err != nil {
 				return err
 			}
-			// Here we are just passing the literal string into the vm and parsing it to a JS value using JSON.parse
+			// Here we are just passing the literal string into the vm and converting it to a JS value
 			// Then setting the currentNode variable to be that value
 			err = vm.Set(globals.CurrentNodeLiteralVarName, string(literal))
 			if err != nil {
 				return err
 			}
-			var currentNodeValue otto.Value
-			currentNodeValue, err = vm.Run(fmt.Sprintf("JSON.parse(%s)", globals.CurrentNodeLiteralVarName))
+			var nodeCopy interface{}
+			if err = json.Unmarshal(literal, &nodeCopy); err != nil {
+				return err
+			}
+			// NOTE: JSON.parse gives the members of objects in a different order each time
+			var jsonParse, currentNodeValue otto.Value
+			if jsonParse, err = vm.Run("JSON.parse"); err != nil {
+				return err
+			}
+			currentNodeValue, err = json_map.ToJsValue(jsonParse, nodeCopy)
 			if err != nil {
 				return err
 			}
diff --git a/jom/json_map/js_value.go b/jom/json_map/js_value.go
new file mode 100644
index 0000000..928960f
--- /dev/null
+++ b/jom/json_map/js_value.go
@@ -0,0 +1,57 @@
+package json_map
+
+import (
+	"github.com/robertkrimen/otto"
+	"sort"
+	"strconv"
+	"strings"
+)
+
+// Converts a value that JSON has been unmarshalled to into a JS value of the VM which the given JSON.parse function
+// belongs to.
+//
+// The members of objects are always in the order of their keys.
+func ToJsValue(jsonParse otto.Value, value interface{}) (out otto.Value, err error) {
+	// Sets the element/member of the object/array that was created
+	set := func(key string, element interface{}) error {
+		elementValue, err := ToJsValue(jsonParse, element)
+		if err != nil {
+			return err
+		}
+		return out.Object().Set(key, elementValue)
+	}
+
+	switch value.(type) {
+	case map[string]interface{}:
+		if out, err = jsonParse.Call(otto.NullValue(), "{}"); err != nil {
+			return otto.NullValue(), err
+		}
+		keys := make([]string, 0)
+		for key := range value.(map[string]interface{}) {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+		for _, key := range keys {
+			if err = set(key, value.(map[string]interface{})[key]); err != nil {
+				return otto.NullValue(), err
+			}
+		}
+	case []interface{}:
+		// The elements have to be there already so that setting them can only ever replace them
+		array := value.([]interface{})
+		placeholders := strings.TrimSuffix(strings.Repeat("0,", len(array)), ",")
+		if out, err = jsonParse.Call(otto.NullValue(), "[" + placeholders + "]"); err != nil {
+			return otto.NullValue(), err
+		}
+		for i, element := range array {
+			if err = set(strconv.Itoa(i), element); err != nil {
+				return otto.NullValue(), err
+			}
+		}
+	case nil:
+		out = otto.NullValue()
+	default:
+		out, err = otto.ToValue(value)
+	}
+	return out, err
+}
-- 
2.43.0


From 736c3d3a6491e1cb082a92ca119022f81517ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:09 +0000
Subject: [PATCH 41/49] fix: scripts in a language that is registered were run
 as Javascript

---
 code/code.go | 21 +++++++++++++--------
 code/run.go  |  4 ++++
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/code/code.go b/code/code.go
index d282a2d..618bc23 100644
--- a/code/code.go
+++ b/code/code.go
@@ -39,20 +39,25 @@ func (code *Code) String() string {
 	return fmt.Sprintf(globals.ScriptErrorFormatString, code.ScriptLangShebang(), fmt.Sprintf("%v", code.Script))
 }
 
+// The shebang suffixes of each ScriptLangType. RegisterLang adds the languages which are not listed here.
+var scriptLangShebangs = map[ScriptLangType]string{
+	JS: "js",
+	GO: "go",
+}
+
 // Gets all the shebang suffixes for the given ScriptLangType.
 func (code *Code) ScriptLangShebang() string {
-	return map[ScriptLangType]string{
-		JS: "js",
-		GO: "go",
-	}[code.ScriptLang]
+	return scriptLangShebangs[code.ScriptLang]
 }
 
 // Gets the ScriptLangType of the given shebang suffix.
 func ShebangScriptLang(shebang string) ScriptLangType {
-	return map[string]ScriptLangType{
-		"js": JS,
-		"go": GO,
-	}[shebang]
+	for scriptLang, scriptLangShebang := range scriptLangShebangs {
+		if scriptLangShebang == shebang {
+			return scriptLang
+		}
+	}
+	return JS
 }
 
 // Creates a new Code object from the given string source code (must include shebang) or a func(json json_map.JsonMapInt).
diff --git a/code/run.go b/code/run.go
index c13c39d..600fbf1 100644
--- a/code/run.go
+++ b/code/run.go
@@ -28,6 +28,10 @@ func CheckIfSupported(scriptLang string) bool {
 // Registers a new SupportedLang to the supportedLangs map.
 // Every supported language package should call this within their init().
 func RegisterLang(shebangName string, runCode func(code Code, jsonMap json_map.JsonMapInt) (data json_map.JsonMapInt, err error)) bool {
+	// Scripts in a language which has no ScriptLangType of its own would be run as Javascript
+	if ShebangScriptLang(shebangName) == JS && shebangName != scriptLangShebangs[JS] {
+		scriptLangShebangs[ScriptLangType(len(scriptLangShebangs))] = shebangName
+	}
 	supportedLangs[shebangName] = &SupportedLang{
 		shebangName: shebangName,
 		runCode:     runCode,
-- 
2.43.0


From 53618700cf5de5aad23e9e68119031249cac5e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:11 +0000
Subject: [PATCH 42/49] fix: the objects that scripts are given can be found
 again within themselves

---
 code/js/js.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index a56d40b..c4adf60 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -245,7 +245,7 @@ func jsonPathSelector(toBeCloned json_map.JsonMapInt, jsonParse otto.Value, call
 		return absolutePathKeyMap
 	}
 
-	// Create a node set map which will store the object we need to return
+	// The members of the object we need to return
 	nodeSetMap := make(map[string]interface{})
 
 	absoluteValues := make([]interface{}, 0)
@@ -342,13 +342,30 @@ func jsonPathSelector(toBeCloned json_map.JsonMapInt, jsonParse otto.Value, call
 	}
 
 	var nodeSet otto.Value
-	nodeSet, err = vm.ToValue(nodeSetMap)
+	nodeSet, err = toObject(vm, nodeSetMap, "_absolutePaths", "getValues", "setValues")
 	if err != nil {
 		throw(fmt.Sprintf("could not convert \"%v\" to otto value", nodeSetMap))
 	}
 	return nodeSet
 }
 
+// Creates an object of the VM which has the given members, in the order of the given names.
+//
+// NOTE: A Go map that is given to otto.Otto.ToValue is wrapped in another object each time that it is looked up. Such an
+//       object is not equal to itself and references back to it cannot be found when it is printed or stringified.
+func toObject(vm *otto.Otto, members map[string]interface{}, names ...string) (otto.Value, error) {
+	object, err := vm.Object("({})")
+	if err != nil {
+		return otto.NullValue(), err
+	}
+	for _, name := range names {
+		if err = object.Set(name, members[name]); err != nil {
+			return otto.NullValue(), err
+		}
+	}
+	return object.Value(), nil
+}
+
 // Construct a list of all the builtin functions to register when creating the environment.
 var builtinFuncs = []struct{
 	name     string
@@ -385,7 +402,7 @@ var builtinVars = []struct{
 			},
 			"scopePath": jsonMap.GetCurrentScopePath(),
 		}
-		if val, err := runtime.ToValue(jom); err != nil {
+		if val, err := toObject(runtime, jom, "trail", "jsonPathSelector", "scopePath"); err != nil {
 			panic(globals.BuiltinGetterError.FillError("json", "Could not convert JOM into otto.Value"))
 		} else {
 			return val
@@ -405,7 +422,7 @@ var builtinVars = []struct{
 				return otto.NullValue()
 			},
 		}
-		if val, err := runtime.ToValue(consoleObj); err != nil {
+		if val, err := toObject(runtime, consoleObj, "log", "error"); err != nil {
 			panic(globals.BuiltinGetterError.FillError("console", "Could not convert console obj to otto.Value"))
 		} else {
 			return val
-- 
2.43.0


From 6d5c6ced397dc3bb442a732327ada84f1aad2883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:14 +0000
Subject: [PATCH 43/49] fix: objects without an end that a script prints or
 sets cannot overflow the stack

---
 code/js/js.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/js/js.go b/code/js/js.go
index c4adf60..5ad71f1 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -33,6 +33,12 @@ var (
 // The parents are the objects that are currently being traversed. Any references back to these are not followed.
 func traverseObject(object *otto.Object, parents map[otto.Value]bool) *map[string]interface{} {
 	objectMap := make(map[string]interface{})
+	// The getters of objects can give another object each time, which has to raise an exception before it can overflow
+	// the Go stack
+	if len(parents) >= globals.StackDepthLimit {
+		message, _ := otto.ToValue("RangeError: Maximum call stack size exceeded")
+		panic(message)
+	}
 	parents[object.Value()] = true
 	defer delete(parents, object.Value())
 
-- 
2.43.0


From 39d0d0805da84208e7f61066a81201097f835975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:31 +0000
Subject: [PATCH 44/49] fix: the errors of setting through wildcards and
 recursive lookups changed from run to run

---
 jom/jom.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index 4c759b3..a95ce02 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -710,6 +710,16 @@ func (jsonMap *JsonMap) GetAbsolutePaths(absolutePaths *json_map.AbsolutePaths)
 	return values, nil
 }
 
+// Returns the keys of the given map in the order in which they are visited, so that every run does the same.
+func sortedKeys(m map[string]interface{}) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 // Returns a deep copy of the maps and arrays within the given value. Any other values are returned as they are.
 func copyValue(value interface{}) interface{} {
 	switch v := value.(type) {
@@ -825,7 +835,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 
 						// Recurse into all the other keys within the map and set the new subtrees returned in the
 						// clone of the current subtree (newSubtreeM)
-						for subSubKey, subSubtree := range subM {
+						for _, subSubKey := range sortedKeys(subM) {
+							subSubtree := subM[subSubKey]
 							// If the current key is equal to the toFind key we continue the recursiveTraversal
 							// subroutine from here
 							if subSubKey == toFind {
@@ -884,8 +895,8 @@ func (jsonMap *JsonMap) SetAbsolutePaths(absolutePaths *json_map.AbsolutePaths,
 				case json_map.IndexKey | json_map.Slice:
 					panic(recursionError{fmt.Sprintf("Cannot access map %v with numerical key %v", currTree, key.Value)})
 				case json_map.Wildcard:
-					// We always iterate through a copy of the map as we might delete a key-value pair from the original map
-					for k := range currTree.(map[string]interface{}) {
+					// We always iterate through a copy of the keys as we might delete a key-value pair from the original map
+					for _, k := range sortedKeys(m) {
 						setterMap(&m, k)
 					}
 				case json_map.Filter:
-- 
2.43.0


From c92764eb35e2b0b4a9dcd1ebfaabd80d65e943de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:49 +0000
Subject: [PATCH 45/49] fix: of several objects that fail another one was
 reported from run to run, and their console records changed places

---
 jom/jom.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index a95ce02..a94a2f3 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -1249,7 +1249,8 @@ func (jsonMap *JsonMap) FindScriptFields() (found bool) {
 	jsonMap.traversal.script = make(map[string]interface{})
 	jsonMap.traversal.nonScript = make(map[string]interface{})
 
-	for key, element := range *(jsonMap.GetInsides()) {
+	for _, key := range sortedKeys(jsonMap.insides) {
+		element := jsonMap.insides[key]
 		switch element.(type) {
 		case map[string]interface{}:
 			// Recurse down the inner map
@@ -1371,7 +1372,12 @@ func (jsonMap *JsonMap) Run() {
 	}
 
 	// Iterate over each key within the new scope (or the same scope if no scripts were run)
-	for key, element := range (*jsonMap).insides {
+	for _, key := range sortedKeys(jsonMap.insides) {
+		// (a callback might have deleted the key)
+		element, ok := jsonMap.insides[key]
+		if !ok {
+			continue
+		}
 		switch element.(type) {
 		case map[string]interface{}:
 			// Recurse when there is a nested object
-- 
2.43.0


From 82cf38b9e1a6073bb5c72756527ad7eeeb13d812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:35 +0000
Subject: [PATCH 46/49] fix: an exception of a filter that cannot be converted
 into a string ended the process

---
 jom/jom.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jom/jom.go b/jom/jom.go
index a94a2f3..0fe229d 100644
--- a/jom/jom.go
+++ b/jom/jom.go
@@ -298,8 +298,12 @@ func filterRunner(obj interface{}, filterExp []byte, jsonMap map[string]interfac
 						)
 						return
 					}
-					// Another error that we should panic for
-					panic(caught)
+					// Exceptions which cannot be converted into a string are not recovered from by the VM. Nothing above
+					// would recover from another panic as the filter may be run in a goroutine of its own.
+					err = errors.New("exception that cannot be converted into a string")
+					if caughtErr, ok := caught.(error); ok {
+						err = caughtErr
+					}
 				}
 			}()
 
-- 
2.43.0


From f88be5fb2170705f310785cf02c26c24b53dcf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:37 +0000
Subject: [PATCH 47/49] fix: the error of an exception that cannot be converted
 into a string names the script

---
 code/js/js.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/js/js.go b/code/js/js.go
index 5ad71f1..bd23632 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -587,6 +587,14 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 		// Any panics are passed on so that they panic again in the outer scope
 		defer func() {
 			out.caught = recover()
+			// Exceptions which cannot be converted into a string are not recovered from by the VM
+			if _, isError := out.caught.(error); out.caught != nil && !isError && out.caught != globals.HaltingProblem {
+				out.caught = nil
+				out.err = globals.ScriptError.FillError(
+					"exception that cannot be converted into a string",
+					fmt.Sprintf(globals.ScriptErrorFormatString, jsonMap.GetCurrentScopePath(), script),
+				)
+			}
 			finished <- out
 		}()
 		// Run the script
-- 
2.43.0


From fb499a96564f87a756e2c92c0fbda310eea7c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:40 +0000
Subject: [PATCH 48/49] fix: the error of a script whose trail cannot be taken
 back names the script

---
 code/js/js.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/js/js.go b/code/js/js.go
index bd23632..91fb5c7 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -604,7 +604,9 @@ func RunScript(code code.Code, jsonMap json_map.JsonMapInt) (data json_map.JsonM
 			return
 		}
 		// De-JOM-ify the environment and return the json_map.JsonMapInt
-		out.data, out.err = deJomIfy(jsonMap, vm)
+		if out.data, out.err = deJomIfy(jsonMap, vm); out.err != nil {
+			out.err = globals.ScriptError.FillError(out.err.Error(), fmt.Sprintf(globals.ScriptErrorFormatString, jsonMap.GetCurrentScopePath(), script))
+		}
 	}()
 
 	// Give the interrupt the time to be noticed before giving up on the script
-- 
2.43.0


From 9de5bbef086ddde9bc945faeb28ab0fc77d9e38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:33 +0000
Subject: [PATCH 49/49] fix: setting values in a script whose trail is an array
 keeps it an array

---
 code/js/js.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/js/js.go b/code/js/js.go
index 91fb5c7..783b5b4 100644
--- a/code/js/js.go
+++ b/code/js/js.go
@@ -334,8 +334,10 @@ func jsonPathSelector(toBeCloned json_map.JsonMapInt, jsonParse otto.Value, call
 
 		// Then we update the current json.trail object with the createJom function which will recreate the jom
 		var trail otto.Value
-		trail, err = createJom(jsonParse, jsonMap)
-		if err != nil {
+		if jsonMap.IsArray() {
+			// Handle the root array hack
+			trail = parseValue((*jsonMap.GetInsides())["array"])
+		} else if trail, err = createJom(jsonParse, jsonMap); err != nil {
 			throw("Could not JOM-ify modified JsonMap")
 		}
 
-- 
2.43.0

