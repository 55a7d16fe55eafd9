W = "codesearch/index/write.go"
LOOP = '''		if len(ix.post) >= cap(ix.post) {
			ix.flushPost()
		}
		ix.post = append(ix.post, makePostEntry(trigram, fileid))
'''
FLUSH = '''	ix.postFile = append(ix.postFile, w)
	sortPost(ix.post)
'''
MERGE = '''	for _, f := range ix.postFile {
		ix.postData = append(
			ix.postData,
			h.addFile(f))
	}
	sortPost(ix.post)
	h.addMem(ix.post)
'''
WR = '''	n := cap(b.buf) - len(b.buf)
	if len(x) > n {
		b.flush()
		if len(x) >= cap(b.buf) {
			if _, err := b.file.Write(x); err != nil {
				fail("writing %s: %v", b.name, err)
			}
			return
		}
	}
	b.buf = append(b.buf, x...)
'''
FL = '''	if len(b.buf) == 0 {
		return
	}
	_, err := b.file.Write(b.buf)
	if err != nil {
		fail("writing %s: %v", b.name, err)
	}
	b.buf = b.buf[:0]
'''
def F(n, *e): return ("c27-" + n, "C27", "fire", [(W, a, b) for a, b in e])
def Q(n, *e): return ("c27-" + n, "C27", "silent", [(W, a, b) for a, b in e])
CASES = [
 F("continue-after-flush", (LOOP, '''		if len(ix.post) >= cap(ix.post) {
			ix.flushPost()
			continue
		}
		ix.post = append(ix.post, makePostEntry(trigram, fileid))
''')),
 F("skip-trigram", (LOOP, '''		if trigram == 0 {
			continue
		}
''' + LOOP)),
 F("break", (LOOP, LOOP + '''		if len(ix.post) == cap(ix.post) {
			break
		}
''')),
 F("slice-of-dense", ("range ix.trigram.Dense() {", "range ix.trigram.Dense()[1:] {")),
 F("entry-other-trigram", (LOOP, LOOP.replace("makePostEntry(trigram,", "makePostEntry(last,").replace("		ix.post = app", "		last := trigram\n		if len(ix.post) > 0 {\n			last = ix.post[0].trigram()\n		}\n		ix.post = app"))),
 F("forgotten-file", (FLUSH, "	sortPost(ix.post)\n")),
 F("unsorted", (FLUSH, "	ix.postFile = append(ix.postFile, w)\n")),
 F("sorted-after", (FLUSH, "	ix.postFile = append(ix.postFile, w)\n"), ("	ix.post = ix.post[:0]\n", "	sortPost(ix.post)\n	ix.post = ix.post[:0]\n")),
 F("half-written", ("[:len(ix.post)*8]\n", "[:len(ix.post)*4]\n")),
 F("half-sorted", ("	ix.postFile = append(ix.postFile, w)\n	sortPost(ix.post)", "	ix.postFile = append(ix.postFile, w)\n	sortPost(ix.post[:len(ix.post)/2])")),
 F("half-read", ("[:len(data)/8]", "[:len(data)/16]")),
 F("given-up-first", ("	ix.postFile = append(ix.postFile, w)\n	sortPost(ix.post)\n", "	ix.postFile = append(ix.postFile, w)\n	sortPost(ix.post)\n	ix.post = ix.post[:0]\n"), ("	ix.post = ix.post[:0]\n	w.Seek", "	w.Seek")),
 F("dropped-when-file-fails", ('''	if err != nil {
		fail("%v", err)
	}
	if ix.Verbose {
		log.Printf("flush''', '''	if err != nil {
		log.Print(err)
		ix.post = ix.post[:0]
		return
	}
	if ix.Verbose {
		log.Printf("flush''')),
 F("merge-from-second", (MERGE, MERGE.replace("range ix.postFile {", "range ix.postFile[1:] {"))),
 F("merge-skips", (MERGE, MERGE.replace("range ix.postFile {\n", "range ix.postFile {\n		if fi, err := f.Stat(); err != nil || fi.Size() == 0 {\n			continue\n		}\n"))),
 F("merge-no-mem", (MERGE, MERGE.replace("	h.addMem(ix.post)\n", "	if len(ix.postFile) == 0 {\n		h.addMem(ix.post)\n	}\n"))),
 F("merge-mem-unsorted", (MERGE, MERGE.replace("	sortPost(ix.post)\n", ""))),
 F("merge-sorts-after", (MERGE, MERGE.replace("	sortPost(ix.post)\n	h.addMem(ix.post)\n", "	h.addMem(ix.post)\n	sortPost(ix.post)\n"))),
 F("merge-file-after-next", (MERGE + '''
	npost := 0
	e := h.next()
''', '''	sortPost(ix.post)
	h.addMem(ix.post)

	npost := 0
	e := h.next()
	for _, f := range ix.postFile {
		ix.postData = append(
			ix.postData,
			h.addFile(f))
	}
''')),
 F("write-no-flush", (WR, WR.replace("		b.flush()\n		if", "		if"))),
 F("write-flush-later", (WR, '''	if len(x) >= cap(b.buf) {
		if _, err := b.file.Write(x); err != nil {
			fail("writing %s: %v", b.name, err)
		}
		return
	}
	if len(x) > cap(b.buf)-len(b.buf) {
		b.flush()
	}
	b.buf = append(b.buf, x...)
''')),
 F("write-returns-early", (WR, WR.replace("		b.flush()\n		if len", "		b.flush()\n		if cap(b.buf) == 0 {\n			return\n		}\n		if len"))),
 F("write-overwrites", (WR, WR.replace("b.buf = append(b.buf, x...)", "b.buf = append(b.buf[:0], x...)"))),
 F("write-truncates", (WR, WR.replace("		b.flush()\n		if len", "		b.buf = b.buf[:0]\n		if len"))),
 F("flush-resets-first", (FL, '''	if len(b.buf) == 0 {
		return
	}
	buf := b.buf
	b.buf = b.buf[:0]
	_, err := b.file.Write(buf[:0])
	if err != nil {
		fail("writing %s: %v", b.name, err)
	}
''')),
 F("flush-error-drops", (FL, '''	if len(b.buf) == 0 {
		return
	}
	if b.file != nil {
		_, err := b.file.Write(b.buf[:len(b.buf)/2])
		if err != nil {
			fail("writing %s: %v", b.name, err)
		}
	}
	b.buf = b.buf[:0]
''')),
 F("flush-small-skipped", (FL, FL.replace("len(b.buf) == 0", "len(b.buf) < 4"))),
 F("finish-no-flush", ("	b.flush()\n	f := b.file\n", "	f := b.file\n")),
 F("finish-flush-large", ("	b.flush()\n	f := b.file\n", "	if len(b.buf) > 16 {\n		b.flush()\n	}\n	f := b.file\n")),
 F("copy-no-flush", ("	dst.flush()\n	_, err := io.Copy", "	_, err := io.Copy")),
 F("copy-flush-src", ("	dst.flush()\n	_, err := io.Copy", "	src.flush()\n	_, err := io.Copy")),
 F("final-flush-missing", ("ix.main.offset())\n\n	ix.main.flush()\n", "ix.main.offset())\n")),
 F("final-flush-before-trailer", ("	ix.main.writeString(trailerMagic)\n", "	ix.main.flush()\n	ix.main.writeString(trailerMagic)\n"), ("ix.main.offset())\n\n	ix.main.flush()\n", "ix.main.offset())\n")),
 F("refill-forgets", ("			buf = buf[:n]\n			i = 0\n", "			buf = buf[:n]\n			i = 0\n			tv = 0\n")),
 F("mask-16", ("tv = (tv << 8) & (1<<24 - 1)", "tv = (tv << 8) & (1<<16 - 1)")),
 F("shift-7", ("tv = (tv << 8) & (1<<24 - 1)", "tv = (tv << 7) & (1<<24 - 1)")),
 F("mask-missing", ("tv = (tv << 8) & (1<<24 - 1)", "tv = tv << 8")),
 F("newline-resets", ("			linelen = 0\n", "			linelen = 0\n			tv = 0\n")),

 Q("order-of-remember", ("	ix.postFile = append(ix.postFile, w)\n	sortPost(ix.post)\n", "	sortPost(ix.post)\n"), ("	ix.post = ix.post[:0]\n	w.Seek", "	ix.postFile = append(ix.postFile, w)\n	ix.post = ix.post[:0]\n	w.Seek")),
 Q("record-helper", (LOOP, "		ix.record(trigram, fileid)\n"), ("// Flush flushes the index", '''func (ix *IndexWriter) record(trigram, fileid uint32) {
	if len(ix.post) < cap(ix.post) {
		ix.post = append(ix.post, makePostEntry(trigram, fileid))
		return
	}
	ix.flushPost()
	ix.post = append(ix.post, makePostEntry(trigram, fileid))
}

// Flush flushes the index''')),
 Q("dense-local", ("	for _, trigram := range ix.trigram.Dense() {\n", "	all := ix.trigram.Dense()\n	for k := 0; k < len(all); k++ {\n		trigram := all[k]\n")),
 Q("entry-inline", ("makePostEntry(trigram, fileid))\n	}\n\n	return", "postEntry(trigram)<<32|postEntry(fileid))\n	}\n\n	return")),
 Q("write-helper", ('''	data := (*[npost * 8]byte)(unsafe.Pointer(&ix.post[0]))[:len(ix.post)*8]
	if n, err := w.Write(data); err != nil || n < len(data) {
		if err != nil {
			fail("%v", err)
		}
		fail("short write writing %s", w.Name())
	}
''', "	ix.writePost(w)\n"), ("// Flush flushes the index", '''func (ix *IndexWriter) writePost(w *os.File) {
	data := (*[npost * 8]byte)(unsafe.Pointer(&ix.post[0]))[:8*len(ix.post)]
	n, err := w.Write(data)
	if err != nil {
		fail("%v", err)
	}
	if n < len(data) {
		fail("short write writing %s", w.Name())
	}
}

// Flush flushes the index''')),
 Q("empty-post-kept", ("func (ix *IndexWriter) flushPost() {\n", "func (ix *IndexWriter) flushPost() {\n	if len(ix.post) == 0 {\n		return\n	}\n")),
 Q("merge-helper", (MERGE, "	ix.addAll(&h)\n"), ("// A postChunk represents", '''func (ix *IndexWriter) addAll(h *postHeap) {
''' + MERGE + '''}

// A postChunk represents''')),
 Q("merge-index", (MERGE, MERGE.replace("	for _, f := range ix.postFile {\n", "	for k := 0; k < len(ix.postFile); k++ {\n		f := ix.postFile[k]\n"))),
 Q("merge-mem-first", (MERGE, '''	sortPost(ix.post)
	h.addMem(ix.post)
	for _, f := range ix.postFile {
		d := h.addFile(f)
		ix.postData = append(ix.postData, d)
	}
''')),
 Q("merge-mem-if-any", (MERGE, MERGE.replace("	sortPost(ix.post)\n	h.addMem(ix.post)\n", "	if len(ix.post) > 0 {\n		sortPost(ix.post)\n		h.addMem(ix.post)\n	}\n"))),
 Q("write-inverted", (WR, '''	if len(x) <= cap(b.buf)-len(b.buf) {
		b.buf = append(b.buf, x...)
		return
	}
	b.flush()
	if len(x) < cap(b.buf) {
		b.buf = append(b.buf, x...)
		return
	}
	if _, err := b.file.Write(x); err != nil {
		fail("writing %s: %v", b.name, err)
	}
''')),
 Q("writestring-via-write", ('''	n := cap(b.buf) - len(b.buf)
	if len(s) > n {
		b.flush()
		if len(s) >= cap(b.buf) {
			if _, err := b.file.WriteString(s); err != nil {
				fail("writing %s: %v", b.name, err)
			}
			return
		}
	}
	b.buf = append(b.buf, s...)
''', "	b.write([]byte(s))\n")),
 Q("reserve", ('''	if cap(b.buf)-len(b.buf) < 4 {
		b.flush()
	}
''', "	b.reserve(4)\n"), ("func (b *bufWriter) flush() {", '''func (b *bufWriter) reserve(n int) {
	if cap(b.buf)-len(b.buf) < n {
		b.flush()
	}
}

func (b *bufWriter) flush() {''')),
 Q("uvarint-loop", ('''	switch {
	case x < 1<<7:
		b.buf = append(b.buf, byte(x))
	case x < 1<<14:
		b.buf = append(b.buf, byte(x|0x80), byte(x>>7))
	case x < 1<<21:
		b.buf = append(b.buf, byte(x|0x80), byte(x>>7|0x80), byte(x>>14))
	case x < 1<<28:
		b.buf = append(b.buf, byte(x|0x80), byte(x>>7|0x80), byte(x>>14|0x80), byte(x>>21))
	default:
		b.buf = append(b.buf, byte(x|0x80), byte(x>>7|0x80), byte(x>>14|0x80), byte(x>>21|0x80), byte(x>>28))
	}
''', '''	for x >= 0x80 {
		b.buf = append(b.buf, byte(x|0x80))
		x >>= 7
	}
	b.buf = append(b.buf, byte(x))
''')),
 Q("flush-positive", (FL, '''	if len(b.buf) > 0 {
		if _, err := b.file.Write(b.buf); err != nil {
			fail("writing %s: %v", b.name, err)
		}
		b.buf = b.buf[:0]
	}
''')),
 Q("finish-copy-order", ("	dst.flush()\n	_, err := io.Copy(dst.file, src.finish())\n", "	in := src.finish()\n	dst.flush()\n	_, err := io.Copy(dst.file, in)\n")),
 Q("final-flush-first", ("	ix.removeTemps()\n\n	log.Printf(\"%d data", "	ix.main.flush()\n	ix.removeTemps()\n\n	log.Printf(\"%d data"), ("ix.main.offset())\n\n	ix.main.flush()\n", "ix.main.offset())\n")),
 Q("tv-one-step", ("		tv = (tv << 8) & (1<<24 - 1)\n", ""), ("		tv |= uint32(c)\n", "		tv = (tv<<8 | uint32(c)) & 0xFFFFFF\n")),
 Q("tv-add", ("		tv |= uint32(c)\n", "		tv += uint32(c)\n")),
 Q("range-buf", ("		c = buf[i]\n		i++\n", "		c, i = buf[i], i+1\n")),
 Q("view-shift", ("[:len(ix.post)*8]\n", "[:len(ix.post)<<3]\n")),
 Q("tri-log", ("	for _, trigram := range ix.trigram.Dense() {\n", "	if ix.Verbose {\n		log.Printf(\"file %d\", fileid)\n	}\n	for _, trigram := range ix.trigram.Dense() {\n")),
 Q("tri-helper", ("			ix.trigram.Add(tv)\n", "			ix.addTrigram(tv)\n"), ("// Flush flushes the index", "func (ix *IndexWriter) addTrigram(t uint32) {\n	ix.trigram.Add(t)\n}\n\n// Flush flushes the index")),
 Q("tri-field", ("		tv = (tv << 8) & (1<<24 - 1)\n", "		s.tv = (s.tv << 8) & (1<<24 - 1)\n"), ("		tv         = uint32(0)\n", "		s          struct{ tv uint32 }\n"), ("		tv |= uint32(c)\n", "		s.tv |= uint32(c)\n"), ("			ix.trigram.Add(tv)\n", "			ix.trigram.Add(s.tv)\n"), ("validUTF8((tv>>8)&0xFF, tv&0xFF)", "validUTF8((s.tv>>8)&0xFF, s.tv&0xFF)")),
 Q("tri-next", ("		tv = (tv << 8) & (1<<24 - 1)\n", "		tv = shifted(tv)\n"), ("// Flush flushes the index", "func shifted(t uint32) uint32 {\n	return (t << 8) & 0xFFFFFF\n}\n\n// Flush flushes the index")),
 Q("addname-order", ("	fileid := ix.addName(name)\n	for", "	var fileid uint32 = ix.addName(name)\n	for")),
 Q("split-record", ("	fileid := ix.addName(name)\n	for _, trigram := range ix.trigram.Dense() {\n" + LOOP + "	}\n", "	ix.recordAll(ix.addName(name))\n"), ("// Flush flushes the index", "func (ix *IndexWriter) recordAll(fileid uint32) {\n	for _, trigram := range ix.trigram.Dense() {\n" + LOOP + "	}\n}\n\n// Flush flushes the index")),
]
