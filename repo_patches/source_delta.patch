From 24e508c0f5db23e609f2c1035f9b4179771e32b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 01/25] fix: trigram query of an alternation lost alternatives

union reuses its receiver's storage, so the prefix and suffix sets of
(exact|other) overwrote each other and the exact set itself, giving a
trigram query that rejects files the regexp matches.
---
 codesearch/index/regexp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codesearch/index/regexp.go b/codesearch/index/regexp.go
index a5686af..c7c57f0 100644
--- a/codesearch/index/regexp.go
+++ b/codesearch/index/regexp.go
@@ -604,8 +604,8 @@ func alternate(x, y regexpInfo) (out regexpInfo) {
 	if x.exact.have() && y.exact.have() {
 		xy.exact = x.exact.union(y.exact, false)
 	} else if x.exact.have() {
-		xy.prefix = x.exact.union(y.prefix, false)
-		xy.suffix = x.exact.union(y.suffix, true)
+		xy.prefix = x.exact.copy().union(y.prefix, false)
+		xy.suffix = x.exact.copy().union(y.suffix, true)
 		x.addExact()
 	} else if y.exact.have() {
 		xy.prefix = x.prefix.union(y.exact, false)
-- 
2.43.0


From 0d25058e898f2962e8bd98a7a908a9bac9f83ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 02/25] fix: hold the searcher lock while reading excluded
 files

The live index may be swapped, and its directory deleted, concurrently.
---
 searcher/searcher.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 791ce81..0d18a78 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -137,6 +137,8 @@ func (s *Searcher) Search(pat string, opt *index.SearchOptions) (*index.SearchRe
 // Get the excluded files as a JSON string. This is only used for returning
 // the data directly to clients (thus JSON).
 func (s *Searcher) GetExcludedFiles() string {
+	s.lck.RLock()
+	defer s.lck.RUnlock()
 	path := filepath.Join(s.idx.GetDir(), "excluded_files.json")
 	dat, err := ioutil.ReadFile(path)
 	if err != nil {
-- 
2.43.0


From a02177f464073117190f8d66788a2dcc01c4e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 03/25] fix: report 404 instead of panicking for excludes of an
 unknown repo

---
 api/api.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index b7aef0e..0a6079a 100644
--- a/api/api.go
+++ b/api/api.go
@@ -234,7 +234,15 @@ func Setup(m *http.ServeMux, idx map[string]*searcher.Searcher, defaultMaxResult
 
 	m.HandleFunc("/api/v1/excludes", func(w http.ResponseWriter, r *http.Request) {
 		repo := r.FormValue("repo")
-		res := idx[repo].GetExcludedFiles()
+		searcher := idx[repo]
+		if searcher == nil {
+			writeError(w,
+				fmt.Errorf("No such repository: %s", repo),
+				http.StatusNotFound)
+			return
+		}
+
+		res := searcher.GetExcludedFiles()
 		w.Header().Set("Content-Type", "application/json;charset=utf-8")
 		w.Header().Set("Access-Control-Allow", "*")
 		fmt.Fprint(w, res)
-- 
2.43.0


From 4852ef1b6cd52b63a3dc93d362d32713af118715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 04/25] fix: send the proper CORS header with the excluded
 files

---
 api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/api.go b/api/api.go
index 0a6079a..0ce4d09 100644
--- a/api/api.go
+++ b/api/api.go
@@ -244,7 +244,7 @@ func Setup(m *http.ServeMux, idx map[string]*searcher.Searcher, defaultMaxResult
 
 		res := searcher.GetExcludedFiles()
 		w.Header().Set("Content-Type", "application/json;charset=utf-8")
-		w.Header().Set("Access-Control-Allow", "*")
+		w.Header().Set("Access-Control-Allow-Origin", "*")
 		fmt.Fprint(w, res)
 	})
 
-- 
2.43.0


From 0679d6688a4180ba2f5feaf533bf9ec3133d65da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 05/25] fix: do not lose a shutdown request

The poller could receive the shutdown message before the unsynchronised
flag was set, drop it and wait again, so that Wait never returned.
---
 searcher/searcher.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 0d18a78..a9c079d 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -29,9 +29,8 @@ type Searcher struct {
 	// update at a time.
 	updateCh chan time.Time
 
-	shutdownRequested bool
-	shutdownCh        chan empty
-	doneCh            chan empty
+	shutdownCh chan empty
+	doneCh     chan empty
 }
 
 // Struct used to send the results from newSearcherConcurrent function.
@@ -167,7 +166,6 @@ func (s *Searcher) Update() bool {
 func (s *Searcher) Stop() {
 	select {
 	case s.shutdownCh <- empty{}:
-		s.shutdownRequested = true
 	default:
 	}
 }
@@ -183,7 +181,8 @@ func (s *Searcher) completeShutdown() {
 
 // Wait for either the delay period to expire or an update request to
 // arrive. Note that an empty delay will result in an infinite timeout.
-func (s *Searcher) waitForUpdate(delay time.Duration) {
+// Returns false if the searcher has been requested to shut down.
+func (s *Searcher) waitForUpdate(delay time.Duration) bool {
 	var tch <-chan time.Time
 	if delay.Nanoseconds() > 0 {
 		tch = time.After(delay)
@@ -194,7 +193,9 @@ func (s *Searcher) waitForUpdate(delay time.Duration) {
 	case <-s.updateCh:
 	case <-tch:
 	case <-s.shutdownCh:
+		return false
 	}
+	return true
 }
 
 // Signal the searcher that it is ok to begin polling the repository.
@@ -474,9 +475,7 @@ func newSearcher(
 
 		for {
 			// Wait for a signal to proceed
-			s.waitForUpdate(delay)
-
-			if s.shutdownRequested {
+			if !s.waitForUpdate(delay) {
 				s.completeShutdown()
 				return
 			}
-- 
2.43.0


From 94f5931c5d1cfdd1eb5d7c3e26016aa3e9282b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 06/25] fix: do not destroy the live index when the old one
 cannot be removed

swapIndexes installs the new index before it destroys the old one, and
its only error is that of the latter.
---
 searcher/searcher.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index a9c079d..336ef3d 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -382,12 +382,9 @@ func updateAndReindex(
 		return rev, false
 	}
 
+	// The new index is live even if the old one could not be destroyed.
 	if err := s.swapIndexes(idx); err != nil {
-		log.Printf("failed index swap (%s): %s", name, err)
-		if err := idx.Destroy(); err != nil {
-			log.Printf("failed to destroy index (%s): %s\n", name, err)
-		}
-		return rev, false
+		log.Printf("failed to destroy old index (%s): %s", name, err)
 	}
 
 	return newRev, true
-- 
2.43.0


From 58a457f2dfdf57e8807f8a5af4385c31ffbb8e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 07/25] fix: remove the partial index directory of a failed
 build

---
 searcher/searcher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 336ef3d..5c21999 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -243,6 +243,7 @@ func buildAndOpenIndex(
 	if _, err := os.Stat(idxDir); err != nil {
 		r, err := index.Build(opt, idxDir, vcsDir, url, rev)
 		if err != nil {
+			os.RemoveAll(idxDir) //nolint
 			return nil, err
 		}
 
-- 
2.43.0


From 4dec6642e29091d97592bdf605848becf050e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 08/25] fix: report files skipped because of a read error as
 excluded

They were neither indexed nor listed as excluded.
---
 codesearch/index/write.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codesearch/index/write.go b/codesearch/index/write.go
index f056e35..b82cc02 100644
--- a/codesearch/index/write.go
+++ b/codesearch/index/write.go
@@ -144,10 +144,10 @@ func (ix *IndexWriter) Add(name string, f io.Reader) string {
 						break
 					}
 					log.Printf("%s: %v\n", name, err)
-					return ""
+					return fmt.Sprintf("Read error: %v", err)
 				}
 				log.Printf("%s: 0-length read\n", name)
-				return ""
+				return "Read error: 0-length read"
 			}
 			buf = buf[:n]
 			i = 0
-- 
2.43.0


From aad3a63e1a99c41a6c25d3e4587ca43a5d26814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 09/25] fix: fail the index build when the raw copy of a file
 cannot be written

Errors from flushing and closing the compressed copy were dropped, leaving
an index whose searches fail.
---
 index/index.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/index/index.go b/index/index.go
index f84d933..5749946 100644
--- a/index/index.go
+++ b/index/index.go
@@ -327,9 +327,13 @@ func addFileToIndex(ix *index.IndexWriter, dst, src, path string) (string, error
 	defer w.Close()
 
 	g := gzip.NewWriter(w)
-	defer g.Close()
+	reason := ix.Add(rel, io.TeeReader(r, g))
 
-	return ix.Add(rel, io.TeeReader(r, g)), nil
+	if err := g.Close(); err != nil {
+		return "", err
+	}
+
+	return reason, w.Close()
 }
 
 func addDirToIndex(dst, src, path string) error {
-- 
2.43.0


From babfc7263a357950eb3e2a49ef89fa1031f12fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 10/25] fix: fail the index build when part of the tree cannot
 be walked

An unreadable directory was silently left out of the index and a file that
vanished during the walk crashed the process.
---
 index/index.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index/index.go b/index/index.go
index 5749946..7836cb7 100644
--- a/index/index.go
+++ b/index/index.go
@@ -391,6 +391,10 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 	}
 
 	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
+		if err != nil {
+			return err
+		}
+
 		name := info.Name()
 		rel, err := filepath.Rel(src, path) //nolint
 		if err != nil {
-- 
2.43.0


From e389b00975f92f448e19b187bf3a4e8887dddf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 11/25] fix: index a repository whose root directory has an
 excluded name

A local repository in a dot directory, or one named like an ignored file,
was indexed as empty.
---
 index/index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/index.go b/index/index.go
index 7836cb7..fde0780 100644
--- a/index/index.go
+++ b/index/index.go
@@ -401,6 +401,11 @@ func indexAllFiles(opt *IndexOptions, dst, src string) error {
 			return err
 		}
 
+		// The root is not part of the source repository, its name is irrelevant.
+		if rel == "." && info.IsDir() {
+			return nil
+		}
+
 		// Is this file considered "special", this means it's not even a part
 		// of the source repository (like .git or .svn).
 		if containsString(opt.SpecialFiles, name) {
-- 
2.43.0


From 2a225c2aeb03765764f0b036847d655691f7e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 12/25] fix: exclude files whose match of the exclude pattern
 ends at offset 0

---
 index/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/index.go b/index/index.go
index fde0780..4912a96 100644
--- a/index/index.go
+++ b/index/index.go
@@ -196,7 +196,7 @@ func (n *Index) Search(pat string, opt *SearchOptions) (*SearchResponse, error)
 		}
 
 		// reject files that match the exclude file pattern
-		if excludeFre != nil && excludeFre.MatchString(name, true, true) > 0 {
+		if excludeFre != nil && excludeFre.MatchString(name, true, true) >= 0 {
 			continue
 		}
 
-- 
2.43.0


From 776ba8110045d7daf1d04702671edaae6d6bb328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 13/25] fix: do not hand one existing index to two searchers

Two repos with the same url and revision shared one index directory, so
the first to be updated deleted the files of the other.
---
 searcher/searcher.go | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 5c21999..7d6274f 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -68,29 +68,23 @@ func (l limiter) Release() {
 }
 
 /**
- * Find an Index ref for the repo url and rev, returns nil if no such
- * ref exists.
+ * Find an unclaimed Index ref for the repo url and rev and claim it for
+ * reuse, returns nil if no such ref exists. This ensures the ref will not
+ * be garbage collected at the end of startup nor used by two searchers.
  */
-func (r *foundRefs) find(url, rev string) *index.IndexRef {
+func (r *foundRefs) claim(url, rev string) *index.IndexRef {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	for _, ref := range r.refs {
-		if ref.Url == url && ref.Rev == rev {
+		if ref.Url == url && ref.Rev == rev && !r.claimed[ref] {
+			r.claimed[ref] = true
 			return ref
 		}
 	}
 	return nil
 }
 
-/**
- * Claim a ref for reuse. This ensures they ref will not be garbage
- * collected at the end of startup.
- */
-func (r *foundRefs) claim(ref *index.IndexRef) {
-	r.lock.Lock()
-	defer r.lock.Unlock()
-
-	r.claimed[ref] = true
-}
-
 /**
  * Delete the directorires associated with all IndexRefs that were
  * found in the dbpath but were not claimed during startup.
@@ -428,12 +422,11 @@ func newSearcher(
 	}
 
 	var idxDir string
-	ref := refs.find(repo.Url, rev)
+	ref := refs.claim(repo.Url, rev)
 	if ref == nil {
 		idxDir = nextIndexDir(dbpath)
 	} else {
 		idxDir = ref.Dir()
-		refs.claim(ref)
 	}
 
 	idx, err := buildAndOpenIndex(
-- 
2.43.0


From 95e84aa6e2566262cf533d9e717880942ffaa510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 14/25] fix: do not update a working directory that is being
 indexed

Repos with the same url share a working directory; one could pull another
revision into it while the other was indexing.
---
 searcher/searcher.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index 7d6274f..b8a6b8a 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -271,6 +271,17 @@ func vcsDirFor(repo *config.Repo) string {
 	return fmt.Sprintf("vcs-%s", hashFor(repo.Url))
 }
 
+// Locks for the vcs directories, which are shared by repos with the same url.
+var vcsDirLocks sync.Map
+
+// Take exclusive use of a vcs directory. The returned function releases it.
+func lockVcsDir(vcsDir string) func() {
+	v, _ := vcsDirLocks.LoadOrStore(vcsDir, &sync.Mutex{})
+	lck := v.(*sync.Mutex)
+	lck.Lock()
+	return lck.Unlock
+}
+
 func init() {
 	rand.Seed(time.Now().UnixNano())
 }
@@ -352,6 +363,9 @@ func updateAndReindex(
 	lim.Acquire()
 	defer lim.Release()
 
+	// the files must not change until the index has been built
+	defer lockVcsDir(vcsDir)()
+
 	repo := s.Repo
 	newRev, err := wd.PullOrClone(vcsDir, repo.Url)
 
@@ -402,6 +416,8 @@ func newSearcher(
 		return nil, err
 	}
 
+	// the files must not change until the index has been built
+	defer lockVcsDir(vcsDir)()
 
 	rev, err := wd.PullOrClone(vcsDir, repo.Url)
 	if err != nil {
-- 
2.43.0


From f3df080fbac9ea0b86878b75d5281401555c3db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 15/25] fix: do not share the template between requests in dev
 mode

Concurrent requests wrote the same field.
---
 ui/ui.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ui/ui.go b/ui/ui.go
index 30d558e..90d0ee7 100644
--- a/ui/ui.go
+++ b/ui/ui.go
@@ -63,12 +63,13 @@ func (h *devHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 // Renders a templated asset in dev-mode. This simply embeds external script tags
 // for the source elements.
 func renderForDev(w io.Writer, root string, c *content, cfg *config.Config, r *http.Request) error {
+	var tpl renderer
 	var err error
 	// For more context, see: https://github.com/etsy/hound/issues/239
 	switch c.tplType {
 	case "html":
 		// Use html/template to parse the html template
-		c.tpl, err = html_template.ParseFiles(filepath.Join(root, c.template))
+		tpl, err = html_template.ParseFiles(filepath.Join(root, c.template))
 		if err != nil {
 			return err
 		}
@@ -76,7 +77,7 @@ func renderForDev(w io.Writer, root string, c *content, cfg *config.Config, r *h
 		// Use text/template to parse the xml or text templates
 		// We are using text/template here for parsing xml to keep things
 		// consistent with html/template parsing.
-		c.tpl, err = text_template.ParseFiles(filepath.Join(root, c.template))
+		tpl, err = text_template.ParseFiles(filepath.Join(root, c.template))
 		if err != nil {
 			return err
 		}
@@ -94,7 +95,7 @@ func renderForDev(w io.Writer, root string, c *content, cfg *config.Config, r *h
 		fmt.Fprintf(&buf, "<script src=\"http://localhost:8080/ui/%s\"></script>", path)
 	}
 
-	return c.tpl.Execute(w, map[string]interface{}{
+	return tpl.Execute(w, map[string]interface{}{
 		"ReactVersion": ReactVersion,
 		"ReposAsJson":  json,
 		"Title":        cfg.Title,
-- 
2.43.0


From 0db7cd05b0ad22c6578d23a553321487433b1bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 16/25] fix: report errors of the server in the command line
 client

The server answers a failed search with status 200 and an Error field,
which the client took for an empty result.
---
 client/client.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index ef37bd3..60d6fa9 100644
--- a/client/client.go
+++ b/client/client.go
@@ -2,6 +2,7 @@ package client
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"net/url"
@@ -18,6 +19,7 @@ type Response struct {
 		FilesOpened int
 		Duration    int
 	} `json:",omitempty"`
+	Error string `json:",omitempty"`
 }
 
 type Presenter interface {
@@ -114,7 +116,15 @@ func Search(r *Response, cfg *Config, pattern, repos, files string, context int,
 		return fmt.Errorf("Status %d", res.StatusCode)
 	}
 
-	return json.NewDecoder(res.Body).Decode(r)
+	if err := json.NewDecoder(res.Body).Decode(r); err != nil {
+		return err
+	}
+
+	if r.Error != "" {
+		return errors.New(r.Error)
+	}
+
+	return nil
 }
 
 // Load the list of repositories from the API running on host.
@@ -125,6 +135,10 @@ func LoadRepos(repos map[string]*config.Repo, cfg *Config) error {
 	}
 	defer res.Body.Close()
 
+	if res.StatusCode != http.StatusOK {
+		return fmt.Errorf("Status %d", res.StatusCode)
+	}
+
 	return json.NewDecoder(res.Body).Decode(&repos)
 }
 
-- 
2.43.0


From 00b6d9332d6d16c949181c4613ba12c796845a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 17/25] fix: do not panic on a repo url whose only slash is its
 first character

---
 client/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 60d6fa9..a7993ef 100644
--- a/client/client.go
+++ b/client/client.go
@@ -47,7 +47,10 @@ func repoNameFromUrl(uri string) string {
 		name = name[:len(name)-4]
 	}
 
-	bx := strings.LastIndex(uri[:ax-1], "/")
+	bx := -1
+	if ax > 0 {
+		bx = strings.LastIndex(uri[:ax-1], "/")
+	}
 	if bx < 0 {
 		return name
 	}
-- 
2.43.0


From 2bbf6f63dc2799a9a0beb4ec24521ff0f13f6149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 18/25] fix: remove the temporary files of an index build that
 fails

---
 codesearch/index/write.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/codesearch/index/write.go b/codesearch/index/write.go
index b82cc02..3456e5a 100644
--- a/codesearch/index/write.go
+++ b/codesearch/index/write.go
@@ -244,26 +244,40 @@ func (ix *IndexWriter) Flush() {
 	}
 	ix.main.writeString(trailerMagic)
 
-	os.Remove(ix.nameData.name)
-	for _, d := range ix.postData {
-		unmmap(d)  //nolint
-	}
-	for _, f := range ix.postFile {
-		f.Close()
-		os.Remove(f.Name())
-	}
-	os.Remove(ix.nameIndex.name)
-	os.Remove(ix.postIndex.name)
+	ix.removeTemps()
 
 	log.Printf("%d data bytes, %d index bytes", ix.totalBytes, ix.main.offset())
 
 	ix.main.flush()
 }
 
+// Close closes the target file and removes the temporary files
+// if the index has not been flushed.
 func (ix *IndexWriter) Close() {
+	ix.removeTemps()
 	ix.main.file.Close()
 }
 
+// removeTemps closes and removes the temporary files, once.
+func (ix *IndexWriter) removeTemps() {
+	for _, d := range ix.postData {
+		unmmap(d)  //nolint
+	}
+	ix.postData = nil
+	for _, f := range ix.postFile {
+		f.Close()
+		os.Remove(f.Name())
+	}
+	ix.postFile = nil
+	for _, b := range []**bufWriter{&ix.nameData, &ix.nameIndex, &ix.postIndex} {
+		if *b != nil {
+			(*b).file.Close()
+			os.Remove((*b).name)
+			*b = nil
+		}
+	}
+}
+
 func copyFile(dst, src *bufWriter) {
 	dst.flush()
 	_, err := io.Copy(dst.file, src.finish())
-- 
2.43.0


From e6d2876c0f3ce416ca49045f22f2f85a3234812d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 19/25] fix: escape the host in open_search.xml

The host a client asks for may hold an ampersand, or quotes and angle
brackets in a request with an absolute URI, and the template for this page
is a text template, which does not escape.
---
 ui/assets/open_search.tpl.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/assets/open_search.tpl.xml b/ui/assets/open_search.tpl.xml
index 9fc569f..976add0 100644
--- a/ui/assets/open_search.tpl.xml
+++ b/ui/assets/open_search.tpl.xml
@@ -6,5 +6,5 @@
     <Tags>Hound</Tags>
     <Url type="text/html"
          method="get"
-         template="http://{{ .Host }}/?q={searchTerms}" />
+         template="http://{{ html .Host }}/?q={searchTerms}" />
 </OpenSearchDescription>
-- 
2.43.0


From fc0248c2ef5f0ecef6bdc5d4b20b14f7bcd4d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:25 +0000
Subject: [PATCH 20/25] fix: do not end the process when an index cannot be
 written or read

The server indexes and searches many repositories. A full disk or a damaged
index of one of them must not take down the others.
---
 codesearch/index/fail.go         | 24 +++++++++++++++
 codesearch/index/mmap_bsd.go     |  7 ++---
 codesearch/index/mmap_linux.go   |  7 ++---
 codesearch/index/mmap_windows.go |  9 +++---
 codesearch/index/read.go         | 21 +++++++++++--
 codesearch/index/write.go        | 52 +++++++++++++++++++-------------
 index/index.go                   | 10 ++++--
 searcher/searcher.go             |  6 +++-
 8 files changed, 95 insertions(+), 41 deletions(-)
 create mode 100644 codesearch/index/fail.go

diff --git a/codesearch/index/fail.go b/codesearch/index/fail.go
new file mode 100644
index 0000000..bc469b0
--- /dev/null
+++ b/codesearch/index/fail.go
@@ -0,0 +1,24 @@
+package index
+
+import "fmt"
+
+// A failure is the reason why an index cannot be written or read.
+type failure string
+
+// fail gives up on the index being written or read. Callers of this package
+// get the reason from Recover.
+func fail(format string, args ...interface{}) {
+	panic(failure(fmt.Sprintf(format, args...)))
+}
+
+// Recover sets err if writing or reading an index has failed. It must be deferred
+// by functions that use an index and must not end the process if that fails.
+func Recover(err *error) {
+	switch e := recover().(type) {
+	case nil:
+	case failure:
+		*err = fmt.Errorf("%s", string(e))
+	default:
+		panic(e)
+	}
+}
diff --git a/codesearch/index/mmap_bsd.go b/codesearch/index/mmap_bsd.go
index 9442ab5..772f865 100644
--- a/codesearch/index/mmap_bsd.go
+++ b/codesearch/index/mmap_bsd.go
@@ -7,7 +7,6 @@
 package index
 
 import (
-  "log"
   "os"
   "syscall"
 )
@@ -15,11 +14,11 @@ import (
 func mmapFile(f *os.File) mmapData {
   st, err := f.Stat()
   if err != nil {
-    log.Fatal(err)
+    fail("%v", err)
   }
   size := st.Size()
   if int64(int(size+4095)) != size+4095 {
-    log.Fatalf("%s: too large for mmap", f.Name())
+    fail("%s: too large for mmap", f.Name())
   }
   n := int(size)
   if n == 0 {
@@ -27,7 +26,7 @@ func mmapFile(f *os.File) mmapData {
   }
   data, err := syscall.Mmap(int(f.Fd()), 0, (n+4095)&^4095, syscall.PROT_READ, syscall.MAP_PRIVATE)
   if err != nil {
-    log.Fatalf("mmap %s: %v", f.Name(), err)
+    fail("mmap %s: %v", f.Name(), err)
   }
   return mmapData{f, data[:n], data}
 }
diff --git a/codesearch/index/mmap_linux.go b/codesearch/index/mmap_linux.go
index 8ea561a..bfd5434 100644
--- a/codesearch/index/mmap_linux.go
+++ b/codesearch/index/mmap_linux.go
@@ -5,7 +5,6 @@
 package index
 
 import (
-  "log"
   "os"
   "syscall"
 )
@@ -13,11 +12,11 @@ import (
 func mmapFile(f *os.File) mmapData {
   st, err := f.Stat()
   if err != nil {
-    log.Fatal(err)
+    fail("%v", err)
   }
   size := st.Size()
   if int64(int(size+4095)) != size+4095 {
-    log.Fatalf("%s: too large for mmap", f.Name())
+    fail("%s: too large for mmap", f.Name())
   }
   n := int(size)
   if n == 0 {
@@ -25,7 +24,7 @@ func mmapFile(f *os.File) mmapData {
   }
   data, err := syscall.Mmap(int(f.Fd()), 0, (n+4095)&^4095, syscall.PROT_READ, syscall.MAP_SHARED)
   if err != nil {
-    log.Fatalf("mmap %s: %v", f.Name(), err)
+    fail("mmap %s: %v", f.Name(), err)
   }
   return mmapData{f, data[:n], data}
 }
diff --git a/codesearch/index/mmap_windows.go b/codesearch/index/mmap_windows.go
index 8f09156..8968f22 100644
--- a/codesearch/index/mmap_windows.go
+++ b/codesearch/index/mmap_windows.go
@@ -5,7 +5,6 @@
 package index
 
 import (
-	"log"
 	"os"
 	"syscall"
 	"unsafe"
@@ -14,24 +13,24 @@ import (
 func mmapFile(f *os.File) mmapData {
 	st, err := f.Stat()
 	if err != nil {
-		log.Fatal(err)
+		fail("%v", err)
 	}
 	size := st.Size()
 	if int64(int(size+4095)) != size+4095 {
-		log.Fatalf("%s: too large for mmap", f.Name())
+		fail("%s: too large for mmap", f.Name())
 	}
 	if size == 0 {
 		return mmapData{f, nil, nil}
 	}
 	h, err := syscall.CreateFileMapping(syscall.Handle(f.Fd()), nil, syscall.PAGE_READONLY, uint32(size>>32), uint32(size), nil)
 	if err != nil {
-		log.Fatalf("CreateFileMapping %s: %v", f.Name(), err)
+		fail("CreateFileMapping %s: %v", f.Name(), err)
 	}
 	defer syscall.CloseHandle(syscall.Handle(h))
 
 	addr, err := syscall.MapViewOfFile(h, syscall.FILE_MAP_READ, 0, 0, 0)
 	if err != nil {
-		log.Fatalf("MapViewOfFile %s: %v", f.Name(), err)
+		fail("MapViewOfFile %s: %v", f.Name(), err)
 	}
 
 	data := (*[1 << 30]byte)(unsafe.Pointer(addr))
diff --git a/codesearch/index/read.go b/codesearch/index/read.go
index 5234266..c2af658 100644
--- a/codesearch/index/read.go
+++ b/codesearch/index/read.go
@@ -95,6 +95,12 @@ const postEntrySize = 3 + 4 + 4
 
 func Open(file string) *Index {
   mm := mmap(file)
+  opened := false
+  defer func() {
+    if !opened {
+      mm.close()  //nolint
+    }
+  }()
   if len(mm.d) < 4*4+len(trailerMagic) || string(mm.d[len(mm.d)-len(trailerMagic):]) != trailerMagic {
     corrupt(mm.f)
   }
@@ -107,6 +113,7 @@ func Open(file string) *Index {
   ix.postIndex = ix.uint32(n + 16)
   ix.numName = int((ix.postIndex-ix.nameIndex)/4) - 1
   ix.numPost = int((n - ix.postIndex) / postEntrySize)
+  opened = true
   return ix
 }
 
@@ -411,7 +418,7 @@ func mergeOr(l1, l2 []uint32) []uint32 {
 }
 
 func corrupt(file *os.File) {
-  log.Fatalf("corrupt index: %s", file.Name())
+  fail("corrupt index: %s", file.Name())
 }
 
 // An mmapData is mmap'ed read-only data from a file.
@@ -429,9 +436,17 @@ func (m *mmapData) close() error {
 func mmap(file string) mmapData {
   f, err := os.Open(file)
   if err != nil {
-    log.Fatal(err)
+    fail("%v", err)
   }
-  return mmapFile(f)
+  mapped := false
+  defer func() {
+    if !mapped {
+      f.Close()
+    }
+  }()
+  m := mmapFile(f)
+  mapped = true
+  return m
 }
 
 // File returns the name of the index file to use.
diff --git a/codesearch/index/write.go b/codesearch/index/write.go
index 3456e5a..f397a03 100644
--- a/codesearch/index/write.go
+++ b/codesearch/index/write.go
@@ -61,15 +61,23 @@ const npost = 64 << 20 / 8 // 64 MB worth of post entries
 
 // Create returns a new IndexWriter that will write the index to file.
 func Create(file string) *IndexWriter {
-	return &IndexWriter{
-		trigram:   sparse.NewSet(1 << 24),
-		nameData:  bufCreate(""),
-		nameIndex: bufCreate(""),
-		postIndex: bufCreate(""),
-		main:      bufCreate(file),
-		post:      make([]postEntry, 0, npost),
-		inbuf:     make([]byte, 16384),
-	}
+	ix := &IndexWriter{
+		trigram: sparse.NewSet(1 << 24),
+		post:    make([]postEntry, 0, npost),
+		inbuf:   make([]byte, 16384),
+	}
+	created := false
+	defer func() {
+		if !created {
+			ix.Close()
+		}
+	}()
+	ix.nameData = bufCreate("")
+	ix.nameIndex = bufCreate("")
+	ix.postIndex = bufCreate("")
+	ix.main = bufCreate(file)
+	created = true
+	return ix
 }
 
 // A postEntry is an in-memory (trigram, file#) pair.
@@ -255,7 +263,9 @@ func (ix *IndexWriter) Flush() {
 // if the index has not been flushed.
 func (ix *IndexWriter) Close() {
 	ix.removeTemps()
-	ix.main.file.Close()
+	if ix.main != nil {
+		ix.main.file.Close()
+	}
 }
 
 // removeTemps closes and removes the temporary files, once.
@@ -282,7 +292,7 @@ func copyFile(dst, src *bufWriter) {
 	dst.flush()
 	_, err := io.Copy(dst.file, src.finish())
 	if err != nil {
-		log.Fatalf("copying %s to %s: %v", src.name, dst.name, err)
+		fail("copying %s to %s: %v", src.name, dst.name, err)
 	}
 }
 
@@ -290,7 +300,7 @@ func copyFile(dst, src *bufWriter) {
 // It returns the assigned file ID number.
 func (ix *IndexWriter) addName(name string) uint32 {
 	if strings.Contains(name, "\x00") {
-		log.Fatalf("%q: file has NUL byte in name", name)
+		fail("%q: file has NUL byte in name", name)
 	}
 
 	ix.nameIndex.writeUint32(ix.nameData.offset())
@@ -306,11 +316,12 @@ func (ix *IndexWriter) addName(name string) uint32 {
 func (ix *IndexWriter) flushPost() {
 	w, err := ioutil.TempFile("", "csearch-index")
 	if err != nil {
-		log.Fatal(err)
+		fail("%v", err)
 	}
 	if ix.Verbose {
 		log.Printf("flush %d entries to %s", len(ix.post), w.Name())
 	}
+	ix.postFile = append(ix.postFile, w)
 	sortPost(ix.post)
 
 	// Write the raw ix.post array to disk as is.
@@ -318,14 +329,13 @@ func (ix *IndexWriter) flushPost() {
 	data := (*[npost * 8]byte)(unsafe.Pointer(&ix.post[0]))[:len(ix.post)*8]
 	if n, err := w.Write(data); err != nil || n < len(data) {
 		if err != nil {
-			log.Fatal(err)
+			fail("%v", err)
 		}
-		log.Fatalf("short write writing %s", w.Name())
+		fail("short write writing %s", w.Name())
 	}
 
 	ix.post = ix.post[:0]
 	w.Seek(0, 0)  //nolint
-	ix.postFile = append(ix.postFile, w)
 }
 
 // mergePost reads the flushed index entries and merges them
@@ -523,7 +533,7 @@ func bufCreate(name string) *bufWriter {
 		f, err = ioutil.TempFile("", "csearch")
 	}
 	if err != nil {
-		log.Fatal(err)
+		fail("%v", err)
 	}
 	return &bufWriter{
 		name: f.Name(),
@@ -538,7 +548,7 @@ func (b *bufWriter) write(x []byte) {
 		b.flush()
 		if len(x) >= cap(b.buf) {
 			if _, err := b.file.Write(x); err != nil {
-				log.Fatalf("writing %s: %v", b.name, err)
+				fail("writing %s: %v", b.name, err)
 			}
 			return
 		}
@@ -559,7 +569,7 @@ func (b *bufWriter) writeString(s string) {
 		b.flush()
 		if len(s) >= cap(b.buf) {
 			if _, err := b.file.WriteString(s); err != nil {
-				log.Fatalf("writing %s: %v", b.name, err)
+				fail("writing %s: %v", b.name, err)
 			}
 			return
 		}
@@ -572,7 +582,7 @@ func (b *bufWriter) offset() uint32 {
 	off, _ := b.file.Seek(0, 1)
 	off += int64(len(b.buf))
 	if int64(uint32(off)) != off {
-		log.Fatalf("index is larger than 4GB")
+		fail("index is larger than 4GB")
 	}
 	return uint32(off)
 }
@@ -583,7 +593,7 @@ func (b *bufWriter) flush() {
 	}
 	_, err := b.file.Write(b.buf)
 	if err != nil {
-		log.Fatalf("writing %s: %v", b.name, err)
+		fail("writing %s: %v", b.name, err)
 	}
 	b.buf = b.buf[:0]
 }
diff --git a/index/index.go b/index/index.go
index 4912a96..d6582e8 100644
--- a/index/index.go
+++ b/index/index.go
@@ -98,7 +98,8 @@ func (r *IndexRef) writeManifest() error {
 	return gob.NewEncoder(w).Encode(r)
 }
 
-func (r *IndexRef) Open() (*Index, error) {
+func (r *IndexRef) Open() (idx *Index, err error) {
+	defer index.Recover(&err)
 	return &Index{
 		Ref: r,
 		idx: index.Open(filepath.Join(r.dir, "tri")),
@@ -143,7 +144,8 @@ func GetRegexpPattern(pat string, ignoreCase bool) string {
 	return "(?m)" + pat
 }
 
-func (n *Index) Search(pat string, opt *SearchOptions) (*SearchResponse, error) {
+func (n *Index) Search(pat string, opt *SearchOptions) (res *SearchResponse, err error) {
+	defer index.Recover(&err)
 	startedAt := time.Now()
 
 	n.lck.RLock()
@@ -370,7 +372,9 @@ func containsString(haystack []string, needle string) bool {
 	return false
 }
 
-func indexAllFiles(opt *IndexOptions, dst, src string) error {
+func indexAllFiles(opt *IndexOptions, dst, src string) (err error) {
+	defer index.Recover(&err)
+
 	ix := index.Create(filepath.Join(dst, "tri"))
 	defer ix.Close()
 
diff --git a/searcher/searcher.go b/searcher/searcher.go
index b8a6b8a..a90ebc8 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -241,7 +241,11 @@ func buildAndOpenIndex(
 			return nil, err
 		}
 
-		return r.Open()
+		idx, err := r.Open()
+		if err != nil {
+			os.RemoveAll(idxDir) //nolint
+		}
+		return idx, err
 	}
 
 	return index.Open(idxDir)
-- 
2.43.0


From 41c095db98acb064a798c94f1f0d1b069402d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:25 +0000
Subject: [PATCH 21/25] fix: report excluded files that cannot be read instead
 of answering nothing

---
 api/api.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/api/api.go b/api/api.go
index 0ce4d09..f65b724 100644
--- a/api/api.go
+++ b/api/api.go
@@ -243,6 +243,13 @@ func Setup(m *http.ServeMux, idx map[string]*searcher.Searcher, defaultMaxResult
 		}
 
 		res := searcher.GetExcludedFiles()
+		if res == "" {
+			writeError(w,
+				fmt.Errorf("Cannot read the excluded files of %s", repo),
+				http.StatusInternalServerError)
+			return
+		}
+
 		w.Header().Set("Content-Type", "application/json;charset=utf-8")
 		w.Header().Set("Access-Control-Allow-Origin", "*")
 		fmt.Fprint(w, res)
-- 
2.43.0


From 0f606985f6c99fdb591d4a16c2cb83f575fff5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:10 +0000
Subject: [PATCH 22/25] fix: wait for the head revision command when reading
 its output fails

---
 vcs/bzr.go | 17 ++---------------
 vcs/git.go | 16 ++--------------
 vcs/hg.go  | 17 ++---------------
 vcs/svn.go | 17 ++---------------
 4 files changed, 8 insertions(+), 59 deletions(-)

diff --git a/vcs/bzr.go b/vcs/bzr.go
index 1797635..48afcb7 100644
--- a/vcs/bzr.go
+++ b/vcs/bzr.go
@@ -1,8 +1,6 @@
 package vcs
 
 import (
-	"bytes"
-	"io"
 	"log"
 	"os/exec"
 	"path/filepath"
@@ -24,23 +22,12 @@ func (g *BzrDriver) HeadRev(dir string) (string, error) {
 		"bzr",
 		"revno")
 	cmd.Dir = dir
-	r, err := cmd.StdoutPipe()
+	out, err := cmd.Output()
 	if err != nil {
 		return "", err
 	}
-	defer r.Close()
 
-	if err := cmd.Start(); err != nil {
-		return "", err
-	}
-
-	var buf bytes.Buffer
-
-	if _, err := io.Copy(&buf, r); err != nil {
-		return "", err
-	}
-
-	return strings.TrimSpace(buf.String()), cmd.Wait()
+	return strings.TrimSpace(string(out)), nil
 }
 
 func (g *BzrDriver) Pull(dir string) (string, error) {
diff --git a/vcs/git.go b/vcs/git.go
index 54f1dfc..4147044 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
-	"io"
 	"log"
 	"os/exec"
 	"path/filepath"
@@ -54,23 +53,12 @@ func (g *GitDriver) HeadRev(dir string) (string, error) {
 		"rev-parse",
 		"HEAD")
 	cmd.Dir = dir
-	r, err := cmd.StdoutPipe()
+	out, err := cmd.Output()
 	if err != nil {
 		return "", err
 	}
-	defer r.Close()
 
-	if err := cmd.Start(); err != nil {
-		return "", err
-	}
-
-	var buf bytes.Buffer
-
-	if _, err := io.Copy(&buf, r); err != nil {
-		return "", err
-	}
-
-	return strings.TrimSpace(buf.String()), cmd.Wait()
+	return strings.TrimSpace(string(out)), nil
 }
 
 func run(desc, dir, cmd string, args ...string) (string, error) {
diff --git a/vcs/hg.go b/vcs/hg.go
index ac28583..b0770a2 100644
--- a/vcs/hg.go
+++ b/vcs/hg.go
@@ -1,8 +1,6 @@
 package vcs
 
 import (
-	"bytes"
-	"io"
 	"io/ioutil"
 	"os/exec"
 	"path/filepath"
@@ -28,23 +26,12 @@ func (g *MercurialDriver) HeadRev(dir string) (string, error) {
 		"--template",
 		"{node}")
 	cmd.Dir = dir
-	r, err := cmd.StdoutPipe()
+	out, err := cmd.Output()
 	if err != nil {
 		return "", err
 	}
-	defer r.Close()
 
-	if err := cmd.Start(); err != nil {
-		return "", err
-	}
-
-	var buf bytes.Buffer
-
-	if _, err := io.Copy(&buf, r); err != nil {
-		return "", err
-	}
-
-	return strings.TrimSpace(buf.String()), cmd.Wait()
+	return strings.TrimSpace(string(out)), nil
 }
 
 func (g *MercurialDriver) Pull(dir string) (string, error) {
diff --git a/vcs/svn.go b/vcs/svn.go
index 0c8571a..f849f9a 100644
--- a/vcs/svn.go
+++ b/vcs/svn.go
@@ -1,9 +1,7 @@
 package vcs
 
 import (
-	"bytes"
 	"encoding/json"
-	"io"
 	"log"
 	"os/exec"
 	"path/filepath"
@@ -35,23 +33,12 @@ func (g *SVNDriver) HeadRev(dir string) (string, error) {
 	cmd := exec.Command(
 		"svnversion")
 	cmd.Dir = dir
-	r, err := cmd.StdoutPipe()
+	out, err := cmd.Output()
 	if err != nil {
 		return "", err
 	}
-	defer r.Close()
 
-	if err := cmd.Start(); err != nil {
-		return "", err
-	}
-
-	var buf bytes.Buffer
-
-	if _, err := io.Copy(&buf, r); err != nil {
-		return "", err
-	}
-
-	return strings.TrimSpace(buf.String()), cmd.Wait()
+	return strings.TrimSpace(string(out)), nil
 }
 
 func (g *SVNDriver) Pull(dir string) (string, error) {
-- 
2.43.0


From da7edc0e8fc80f4cc9912cce80a57016bae69ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:40 +0000
Subject: [PATCH 23/25] fix: wait for git ls-files when git check-attr fails

---
 vcs/git.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vcs/git.go b/vcs/git.go
index 4147044..220246b 100644
--- a/vcs/git.go
+++ b/vcs/git.go
@@ -165,6 +165,9 @@ func (g *GitDriver) AutoGeneratedFiles(dir string) []string {
 
 	if err != nil {
 		log.Printf("Error occured when running git check-attr in %s: %s.", dir, err)
+		// Closing the pipe ends git ls-files when it is still writing.
+		pipe.Close()
+		filesCmd.Wait()
 		return files
 	}
 
-- 
2.43.0


From a28fe5d07c4e54161aaa5491a5fee8a8a012a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:37 +0000
Subject: [PATCH 24/25] fix: mark as generated the files which are in the
 revision that is indexed

The list was made once, when the searcher was created, and used for every
later revision.
---
 searcher/searcher.go | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/searcher/searcher.go b/searcher/searcher.go
index a90ebc8..e2104d4 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -352,6 +352,22 @@ func New(dbpath, name string, repo *config.Repo) (*Searcher, error) {
 	return s, nil
 }
 
+// The options for indexing the files which are in the vcs directory now.
+func indexOptionsFor(repo *config.Repo, wd *vcs.WorkDir, vcsDir string) *index.IndexOptions {
+	var autoFiles []string
+	if len(repo.AutoGeneratedFiles) > 0 {
+		autoFiles = repo.AutoGeneratedFiles
+	} else {
+		autoFiles = wd.AutoGeneratedFiles(vcsDir)
+	}
+
+	return &index.IndexOptions{
+		ExcludeDotFiles:    repo.ExcludeDotFiles,
+		SpecialFiles:       wd.SpecialFiles(),
+		AutoGeneratedFiles: autoFiles,
+	}
+}
+
 // Update the vcs and reindex the given repo.
 func updateAndReindex(
 	s *Searcher,
@@ -360,7 +376,6 @@ func updateAndReindex(
 	name,
 	rev string,
 	wd *vcs.WorkDir,
-	opt *index.IndexOptions,
 	lim limiter) (string, bool) {
 
 	// acquire a token from the rate limiter
@@ -384,7 +399,7 @@ func updateAndReindex(
 
 	log.Printf("Rebuilding %s for %s", name, newRev)
 	idx, err := buildAndOpenIndex(
-		opt,
+		indexOptionsFor(repo, wd, vcsDir),
 		dbpath,
 		vcsDir,
 		nextIndexDir(dbpath),
@@ -428,18 +443,7 @@ func newSearcher(
 		return nil, err
 	}
 
-	var autoFiles []string
-	if len(repo.AutoGeneratedFiles) > 0 {
-		autoFiles = repo.AutoGeneratedFiles
-	} else {
-		autoFiles = wd.AutoGeneratedFiles(vcsDir)
-	}
-
-	opt := &index.IndexOptions{
-		ExcludeDotFiles:    repo.ExcludeDotFiles,
-		SpecialFiles:       wd.SpecialFiles(),
-		AutoGeneratedFiles: autoFiles,
-	}
+	opt := indexOptionsFor(repo, wd, vcsDir)
 
 	var idxDir string
 	ref := refs.claim(repo.Url, rev)
@@ -492,7 +496,7 @@ func newSearcher(
 			}
 
 			// attempt to update and reindex this searcher
-			newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, opt, lim)
+			newRev, ok := updateAndReindex(s, dbpath, vcsDir, name, rev, wd, lim)
 			if !ok {
 				continue
 			}
-- 
2.43.0


From bac780b9405d7215b3786c592627a8e298c9fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:18 +0000
Subject: [PATCH 25/25] fix: do not reuse an index built with other options

After a change of exclude-dot-files or auto-generated-files the old index
was used until the next commit; and of two repos with the same url and
different options each could get the index of the other.
---
 index/index.go       | 19 +++++++++++++++++++
 searcher/searcher.go | 13 +++++++------
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/index/index.go b/index/index.go
index d6582e8..a04f900 100644
--- a/index/index.go
+++ b/index/index.go
@@ -81,6 +81,7 @@ type IndexRef struct {
 	Rev                string
 	Time               time.Time
 	dir                string
+	ExcludeDotFiles    bool
 	AutoGeneratedFiles []string
 }
 
@@ -88,6 +89,23 @@ func (r *IndexRef) Dir() string {
 	return r.dir
 }
 
+// BuiltWith tells whether an index built with these options would be the same.
+func (r *IndexRef) BuiltWith(opt *IndexOptions) bool {
+	if r.ExcludeDotFiles != opt.ExcludeDotFiles {
+		return false
+	}
+
+	if len(r.AutoGeneratedFiles) != len(opt.AutoGeneratedFiles) {
+		return false
+	}
+	for i, name := range r.AutoGeneratedFiles {
+		if name != opt.AutoGeneratedFiles[i] {
+			return false
+		}
+	}
+	return true
+}
+
 func (r *IndexRef) writeManifest() error {
 	w, err := os.Create(filepath.Join(r.dir, manifestFilename))
 	if err != nil {
@@ -522,6 +540,7 @@ func Build(opt *IndexOptions, dst, src, url, rev string) (*IndexRef, error) {
 		Rev:                rev,
 		Time:               time.Now(),
 		dir:                dst,
+		ExcludeDotFiles:    opt.ExcludeDotFiles,
 		AutoGeneratedFiles: opt.AutoGeneratedFiles,
 	}
 
diff --git a/searcher/searcher.go b/searcher/searcher.go
index e2104d4..16d6ec8 100644
--- a/searcher/searcher.go
+++ b/searcher/searcher.go
@@ -68,16 +68,17 @@ func (l limiter) Release() {
 }
 
 /**
- * Find an unclaimed Index ref for the repo url and rev and claim it for
- * reuse, returns nil if no such ref exists. This ensures the ref will not
- * be garbage collected at the end of startup nor used by two searchers.
+ * Find an unclaimed Index ref for the repo url and rev which was built with
+ * the same options and claim it for reuse, returns nil if no such ref exists.
+ * This ensures the ref will not be garbage collected at the end of startup nor
+ * used by two searchers.
  */
-func (r *foundRefs) claim(url, rev string) *index.IndexRef {
+func (r *foundRefs) claim(url, rev string, opt *index.IndexOptions) *index.IndexRef {
 	r.lock.Lock()
 	defer r.lock.Unlock()
 
 	for _, ref := range r.refs {
-		if ref.Url == url && ref.Rev == rev && !r.claimed[ref] {
+		if ref.Url == url && ref.Rev == rev && ref.BuiltWith(opt) && !r.claimed[ref] {
 			r.claimed[ref] = true
 			return ref
 		}
@@ -446,7 +447,7 @@ func newSearcher(
 	opt := indexOptionsFor(repo, wd, vcsDir)
 
 	var idxDir string
-	ref := refs.claim(repo.Url, rev)
+	ref := refs.claim(repo.Url, rev, opt)
 	if ref == nil {
 		idxDir = nextIndexDir(dbpath)
 	} else {
-- 
2.43.0

