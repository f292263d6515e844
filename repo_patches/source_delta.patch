From 631705ac2273ec418a600a7f2ea11457090a3992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 01/78] fix: keep a level 0 conflict across later Solve and Add
 calls

After Solve found the clauses unsat at level 0, a second Solve (or Add
followed by Solve) forgot the conflict: it derived a bogus clause, assigned
the null literal and ended the process with 'internal error', or answered
from an inconsistent state.
---
 internal/xo/cgc.go |  3 +++
 internal/xo/s.go   | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 01c7d64..9216405 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -192,6 +192,9 @@ func (c *Cgc) CompactCDat(cdb *Cdb) (int, int) {
 func (c *Cgc) relocate(cdb *Cdb, rlm map[z.C]z.C) {
 	cdb.Learnts = relocateSlice(cdb.Learnts, rlm)
 	cdb.Added = relocateSlice(cdb.Added, rlm)
+	if q, ok := rlm[cdb.Bot]; ok {
+		cdb.Bot = q
+	}
 	// reasons
 	cdb.Vars.Reasons = relocateSlice(cdb.Vars.Reasons, rlm)
 	// watches
diff --git a/internal/xo/s.go b/internal/xo/s.go
index 9f7d865..cf20ca9 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -542,6 +542,7 @@ func (s *S) ensure0() {
 	if len(s.testLevels) != 0 {
 		panic("ivalid operation under test scope")
 	}
+	s.pinConflict()
 	if s.Trail.Level != 0 {
 		s.Trail.Back(0)
 	}
@@ -639,6 +640,7 @@ func (s *S) solveInit() int {
 func (s *S) cleanupSolve() z.C {
 	trail := s.Trail
 	for s.x != CNull {
+		s.pinConflict()
 		if s.Cdb.Bot != CNull { // Cdb.Bot is always checked in makeAssumptions, true empty clause.
 			s.x = CNull
 			break
@@ -664,6 +666,15 @@ func (s *S) cleanupSolve() z.C {
 	return CNull
 }
 
+// pinConflict makes a conflict at level 0 permanent, by means of the empty
+// clause.  Such a conflict depends on no assumption, and propagation has
+// already passed it by, so nothing would find it again.
+func (s *S) pinConflict() {
+	if s.x != CNull && s.Trail.Level == 0 && s.Cdb.Bot == CNull {
+		s.Cdb.Learn(nil, 0)
+	}
+}
+
 func (s *S) lastTestLevel() int {
 	if len(s.testLevels) > 0 {
 		return s.testLevels[len(s.testLevels)-1]
-- 
2.43.0


From 98bf320901c09d72ccb7a5c947128d182b60d8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 02/78] fix: activating a clause which is true at level 0 no
 longer panics

Only the empty clause is documented to panic.  A clause which is a tautology
or which holds at level 0 needs no representation.
---
 internal/xo/active.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/xo/active.go b/internal/xo/active.go
index b0c906d..fb3b17f 100644
--- a/internal/xo/active.go
+++ b/internal/xo/active.go
@@ -37,7 +37,7 @@ func (a *Active) ActivateWith(act z.Lit, s *S) {
 		panic("activated empty clause")
 	}
 	if loc == CInf {
-		panic("activated trivially true clause")
+		// already true at level 0: there is no clause to activate.
 		return
 	}
 	// add occs
-- 
2.43.0


From 494d39a39380d694677e81fa9a15ea174bc54b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 03/78] fix: do not recycle an activation literal which is
 fixed at level 0

Recycling it made every later clause activated with it vacuous, and removing
its clauses removed the reason for its value, which shifted the reasons of
all other variables.
---
 internal/xo/active.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/xo/active.go b/internal/xo/active.go
index fb3b17f..2daea37 100644
--- a/internal/xo/active.go
+++ b/internal/xo/active.go
@@ -62,6 +62,12 @@ func (a *Active) Deactivate(cdb *Cdb, m z.Lit) {
 	m = mv.Pos()
 	sl := a.Occs[mv]
 	a.Occs[mv] = nil
+	if cdb.Vars.Vals[m] != 0 {
+		// m is fixed at level 0.  It cannot serve as an activation literal
+		// again, and one of its clauses may be the reason for its value.
+		a.IsActive[mv] = false
+		return
+	}
 	cdb.Remove(sl...) // this might trigger CRemap below, so we update occs first.
 	a.Free = append(a.Free, m)
 	a.IsActive[mv] = false
-- 
2.43.0


From 8c9749a04607fc5af55724d1cbdb960a776b71da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 04/78] fix: Write gives the clauses in the solver, and counts
 them

The header counted added clauses only while learned clauses were written as
well, clauses removed by Deactivate were still written until storage was
compacted, and writing a solver without clauses divided by zero.
---
 internal/xo/cdat.go | 10 +++++++++-
 internal/xo/cdb.go  |  9 +++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index b97be00..0274e6f 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -179,6 +179,9 @@ func (c *CDat) Load(p z.C, ms []z.Lit) []z.Lit {
 
 // Func Forall applies f to every clause in the store.
 func (c *CDat) Forall(f func(i int, p z.C, ms []z.Lit)) {
+	if c.Len == 0 {
+		return
+	}
 	ns := make([]z.Lit, 0, c.ClsLen*2/c.Len)
 	i := 0
 	q := z.C(1)
@@ -194,9 +197,14 @@ func (c *CDat) Forall(f func(i int, p z.C, ms []z.Lit)) {
 
 // func Dimacs writes a dimacs file (no header)
 func (c *CDat) Dimacs(w io.Writer) error {
+	return c.dimacsBut(w, nil)
+}
+
+// dimacsBut is Dimacs without the clauses in skip.
+func (c *CDat) dimacsBut(w io.Writer, skip map[z.C]bool) error {
 	var ret error
 	c.Forall(func(i int, o z.C, ms []z.Lit) {
-		if ret != nil {
+		if ret != nil || skip[o] {
 			return
 		}
 		//fmt.Fprintf(w, "%s: ", o)
diff --git a/internal/xo/cdb.go b/internal/xo/cdb.go
index 98c062c..0a5e5a1 100644
--- a/internal/xo/cdb.go
+++ b/internal/xo/cdb.go
@@ -304,7 +304,12 @@ func (c *Cdb) SetTracer(t Tracer) {
 }
 
 func (c *Cdb) Write(w io.Writer) error {
-	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, len(c.Added)))
+	// removed clauses stay in CDat until it is compacted.
+	rmd := make(map[z.C]bool, len(c.gc.rmq))
+	for _, p := range c.gc.rmq {
+		rmd[p] = true
+	}
+	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, c.CDat.ClsLen-len(rmd)))
 	n := 0
 	for n < len(hdr) {
 		m, e := w.Write(hdr[n:])
@@ -313,7 +318,7 @@ func (c *Cdb) Write(w io.Writer) error {
 			return e
 		}
 	}
-	return c.CDat.Dimacs(w)
+	return c.CDat.dimacsBut(w, rmd)
 }
 
 func (c *Cdb) String() string {
-- 
2.43.0


From 7909d4e1c6d72225eca196e71ab2d75b820a87b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 05/78] fix: Copy copies the heuristic state instead of
 resetting parts of it

---
 internal/xo/cdat.go  | 1 +
 internal/xo/cgc.go   | 4 ++--
 internal/xo/guess.go | 8 ++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index 0274e6f..6a3282c 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -235,6 +235,7 @@ func (c *CDat) CopyTo(other *CDat) {
 	other.Len = c.Len
 	other.Cap = c.Cap
 	other.ClsLen = c.ClsLen
+	other.bumpInc = c.bumpInc
 	copy(other.D, c.D)
 }
 
diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 9216405..d7a174f 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -52,8 +52,8 @@ func (c *Cgc) Copy() *Cgc {
 	*l = *c.luby
 	other := &Cgc{
 		luby:      l,
-		factor:    2048,
-		stopWatch: 2048 * l.Next(),
+		factor:    c.factor,
+		stopWatch: c.stopWatch,
 		rmq:       make([]z.C, len(c.rmq), cap(c.rmq)),
 		rmLits:    c.rmLits,
 		rmd:       c.rmd}
diff --git a/internal/xo/guess.go b/internal/xo/guess.go
index 7816467..50282e9 100644
--- a/internal/xo/guess.go
+++ b/internal/xo/guess.go
@@ -211,6 +211,14 @@ func (g *Guess) Copy() *Guess {
 		vhp:       make([]z.Var, len(g.vhp), cap(g.vhp)),
 		heat:      make([]float64, len(g.heat), cap(g.heat)),
 		cache:     make([]int8, len(g.cache), cap(g.cache)),
+
+		decays:        g.decays,
+		restartDecays: g.restartDecays,
+		decayMin:      g.decayMin,
+		decayMax:      g.decayMax,
+		decayMaxMax:   g.decayMaxMax,
+		decayMaxDecay: g.decayMaxDecay,
+
 		bumpInc:   g.bumpInc,
 		bumpDecay: g.bumpDecay,
 		bumpLim:   g.bumpLim}
-- 
2.43.0


From ed5ea9db9c07892d450e735622866490c2567563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 06/78] fix: Sv leaves the literals the caller gives to Assume
 and Why as they are

---
 sv.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sv.go b/sv.go
index f6a525f..cb38bd1 100644
--- a/sv.go
+++ b/sv.go
@@ -41,7 +41,9 @@ func (w *svWrap) FreeInner(m z.Lit) {
 }
 
 func (w *svWrap) Assume(ms ...z.Lit) {
-	w.S.Assume(w.V.ToInners(ms)...)
+	ns := make([]z.Lit, len(ms)) // ms may be the caller's
+	copy(ns, ms)
+	w.S.Assume(w.V.ToInners(ns)...)
 }
 
 func (w *svWrap) Add(m z.Lit) {
@@ -57,8 +59,8 @@ func (w *svWrap) Lit() z.Lit {
 }
 
 func (w *svWrap) Why(dst []z.Lit) []z.Lit {
-	dst = w.S.Why(dst)
-	return w.V.ToOuters(dst)
+	// dst keeps what it holds, which is mapped already.
+	return append(dst, w.V.ToOuters(w.S.Why(nil))...)
 }
 
 func (w *svWrap) Value(m z.Lit) bool {
-- 
2.43.0


From b5ba89d913148ad472fd3c1ce9f8065ae2ce4a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 07/78] fix: z.Vars does not use variable 0 for an inner
 variable

---
 z/dv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/z/dv.go b/z/dv.go
index bc3ae43..de43c9f 100644
--- a/z/dv.go
+++ b/z/dv.go
@@ -22,7 +22,8 @@ type Vars struct {
 
 // NewVars creates a new Vars object.
 func NewVars() *Vars {
-	return &Vars{}
+	// variable 0 is no variable, on either side.
+	return &Vars{i2o: []Var{0}, o2i: []Var{0}}
 }
 
 func (v *Vars) Copy() *Vars {
-- 
2.43.0


From 2a1f257a6adbbef48c748978f027a31484b60723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 08/78] fix: CommentFilter filters the data which comes with an
 error, and comments after a blank line

---
 dimacs/cfilt.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dimacs/cfilt.go b/dimacs/cfilt.go
index 74e4e8d..49a9867 100644
--- a/dimacs/cfilt.go
+++ b/dimacs/cfilt.go
@@ -44,9 +44,6 @@ func (s state) String() string {
 func (f *CommentFilter) Read(buf []byte) (n int, e error) {
 Start:
 	n, e = f.rdr.Read(buf)
-	if e != nil {
-		return n, e
-	}
 	j := 0
 	state := f.state
 	for _, b := range buf[:n] {
@@ -69,7 +66,11 @@ Start:
 			}
 			buf[j] = b
 			j++
-			state = notComment
+			if b == byte('\n') {
+				state = newLine
+			} else {
+				state = notComment
+			}
 		case newLine:
 			if b == byte('c') {
 				state = inComment
@@ -95,8 +96,8 @@ Start:
 		}
 	}
 	f.state = state
-	if j == 0 {
+	if j == 0 && e == nil {
 		goto Start
 	}
-	return j, nil
+	return j, e
 }
-- 
2.43.0


From 18531d9493c37c2492343368a85503b1d3fe2162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 09/78] fix: dimacs numbers have digits and fit a literal

---
 dimacs/int.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dimacs/int.go b/dimacs/int.go
index 687c9c7..7565c4d 100644
--- a/dimacs/int.go
+++ b/dimacs/int.go
@@ -7,11 +7,13 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 )
 
 func readInt(rdr *bufio.Reader) (int, error) {
 	v := 0
 	m := 1
+	digits := 0
 	c, e := readNextNonWhiteByte(rdr)
 
 	if e != nil && e != io.EOF {
@@ -22,6 +24,7 @@ func readInt(rdr *bufio.Reader) (int, error) {
 	}
 	if c >= byte('0') && c <= byte('9') {
 		v = int(c - byte('0'))
+		digits++
 	} else if c == byte('-') {
 		m = -1
 	} else {
@@ -30,7 +33,7 @@ func readInt(rdr *bufio.Reader) (int, error) {
 	for {
 		c, e = rdr.ReadByte()
 		if e == io.EOF {
-			return v * m, nil
+			break
 		}
 		if e != nil {
 			return 0, e
@@ -41,8 +44,15 @@ func readInt(rdr *bufio.Reader) (int, error) {
 		if c < byte('0') || c > byte('9') {
 			return 0, fmt.Errorf("bad character for int: %c", c)
 		}
+		if v > (math.MaxInt32-int(c-byte('0')))/10 {
+			return 0, fmt.Errorf("int out of range")
+		}
 		v *= 10
 		v += int(c - byte('0'))
+		digits++
+	}
+	if digits == 0 {
+		return 0, fmt.Errorf("int without digits")
 	}
 	return v * m, nil
 }
-- 
2.43.0


From a161bbb3ccc4d55113462aa3e8318ec9f59caeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 10/78] fix: ReadCnf reports truncated input and calls Eof

---
 dimacs/cnf.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index c426f7d..066bf7a 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -79,6 +79,7 @@ func (r *cnfReader) Read() error {
 				r.hdrVars, r.hdrCls, r.vMax, r.nCls)
 		}
 	}
+	r.vis.Eof()
 	return nil
 }
 
@@ -86,7 +87,7 @@ func (r *cnfReader) Read() error {
 func (r *cnfReader) readHeader() error {
 	var e error = nil
 	var b byte
-	b, e = r.rdr.ReadByte()
+	b, e = readNextNonWhiteByte(r.rdr)
 	if e != nil {
 		return e
 	}
@@ -94,7 +95,11 @@ func (r *cnfReader) readHeader() error {
 		if e := r.rdr.UnreadByte(); e != nil {
 			return e
 		}
-		return r.readP()
+		e = r.readP()
+		if e == io.EOF {
+			e = io.ErrUnexpectedEOF
+		}
+		return e
 	}
 	return r.rdr.UnreadByte()
 }
@@ -110,16 +115,21 @@ func (r *cnfReader) readBody() error {
 	}
 	r.vis.Init(vCap, cCap)
 	v := 0
+	open := false // in a clause
 	var e error
 	vis := r.vis
 	for {
 		v, e = readInt(r.rdr)
 		if e == io.EOF {
+			if open {
+				return fmt.Errorf("last clause is not terminated")
+			}
 			return nil
 		}
 		if e != nil {
 			return e
 		}
+		open = v != 0
 		if v == 0 {
 			vis.Add(0)
 			r.nCls++
@@ -159,6 +169,9 @@ func (r *cnfReader) readP() error {
 	if e != nil {
 		return e
 	}
+	if nv < 0 || nc < 0 {
+		return fmt.Errorf("negative number in header: %d %d", nv, nc)
+	}
 	r.hdrVars = nv
 	r.hdrCls = nc
 	return nil
-- 
2.43.0


From 89e327dd210dfe8b2813097282b7cb20d8f22f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 11/78] fix: ReadICnf skips white space and reports truncated
 input

---
 dimacs/icnf.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/dimacs/icnf.go b/dimacs/icnf.go
index 5f058d2..e90a9ac 100644
--- a/dimacs/icnf.go
+++ b/dimacs/icnf.go
@@ -33,9 +33,13 @@ func (i *iCnfReader) read() error {
 	rdr := i.rdr
 	vis := i.vis
 	assumptions := false
+	open := false // in a clause or in assumptions
 	for {
-		c, e := rdr.ReadByte()
+		c, e := readNextNonWhiteByte(rdr)
 		if e == io.EOF {
+			if open {
+				return fmt.Errorf("last clause or assumptions are not terminated")
+			}
 			vis.Eof()
 			return nil
 		}
@@ -43,6 +47,9 @@ func (i *iCnfReader) read() error {
 			return e
 		}
 		if c == 'a' {
+			if open {
+				return fmt.Errorf("unexpected: '%c'", c)
+			}
 			assumptions = true
 		} else {
 			if e := rdr.UnreadByte(); e != nil {
@@ -50,9 +57,13 @@ func (i *iCnfReader) read() error {
 			}
 		}
 		m, e := readLit(rdr)
+		if e == io.EOF {
+			e = io.ErrUnexpectedEOF
+		}
 		if e != nil {
 			return e
 		}
+		open = m != z.LitNull
 		if assumptions {
 			vis.Assume(m)
 		} else {
@@ -70,6 +81,12 @@ func (i *iCnfReader) readP() error {
 	rdr := i.rdr
 	for i := 0; i < m; i++ {
 		c, e := rdr.ReadByte()
+		if e == nil && c == '\r' && expect[i] == '\n' {
+			c, e = rdr.ReadByte()
+		}
+		if e == io.EOF {
+			e = io.ErrUnexpectedEOF
+		}
 		if e != nil {
 			return e
 		}
-- 
2.43.0


From 25c162b5357c818ddde563aa9b8c71729b3b00ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 12/78] fix: ReadSolve reads values over several lines

---
 dimacs/int.go   | 4 ++++
 dimacs/solve.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/dimacs/int.go b/dimacs/int.go
index 7565c4d..ac27989 100644
--- a/dimacs/int.go
+++ b/dimacs/int.go
@@ -39,6 +39,10 @@ func readInt(rdr *bufio.Reader) (int, error) {
 			return 0, e
 		}
 		if c == byte(' ') || c == byte('\n') || c == byte('\t') || c == byte('\r') {
+			// what comes next may depend on the end of the line.
+			if e := rdr.UnreadByte(); e != nil {
+				return 0, e
+			}
 			break
 		}
 		if c < byte('0') || c > byte('9') {
diff --git a/dimacs/solve.go b/dimacs/solve.go
index 8244ad4..d511b87 100644
--- a/dimacs/solve.go
+++ b/dimacs/solve.go
@@ -87,6 +87,9 @@ func (s *sRdr) read() error {
 				return fmt.Errorf("unexpected character '%c' at line %d\n", c, line)
 			}
 		case values:
+			if c == byte(' ') || c == byte('\t') || c == byte('\r') {
+				continue
+			}
 			if e := rdr.UnreadByte(); e != nil {
 				return e
 			}
-- 
2.43.0


From 82eb64ab363db2fc270531fdd591fcea7fd1bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:19 +0000
Subject: [PATCH 13/78] fix: Eval64 gives the constant true in all 64 bits

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index 8ce1d01..b72ab98 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -228,7 +228,7 @@ func (c *C) Eval(vs []bool) {
 // parallel as the bits of a uint64.
 func (c *C) Eval64(vs []uint64) {
 	N := len(c.nodes)
-	vs[1] = (1 << 63) - 1
+	vs[1] = ^uint64(0)
 	for i := 2; i < N; i++ {
 		n := &c.nodes[i]
 		if n.a < 4 {
-- 
2.43.0


From 996f3b8aa5eb35fbf290b4a4ce2456070489def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 14/78] fix: a copy of a circuit finds the gates which are
 there

---
 logic/c.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index b72ab98..0fc42c2 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -68,7 +68,8 @@ func (c *C) ToCnf(dst inter.Adder) {
 
 // Copy makes a copy of `c`.
 func (c *C) Copy() *C {
-	ns := make([]node, len(c.nodes))
+	// the capacity is the modulus of strash.
+	ns := make([]node, len(c.nodes), cap(c.nodes))
 	st := make([]uint32, len(c.strash))
 	copy(ns, c.nodes)
 	copy(st, c.strash)
-- 
2.43.0


From cec33a2331a349ad4d217f62c912a54f52d4074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 15/78] fix: InPos does not take the constant for an input

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index 0fc42c2..1bc9556 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -187,7 +187,7 @@ func (c *C) Lit() z.Lit {
 func (c *C) InPos(dst []int) []int {
 	dst = dst[:0]
 	for i, n := range c.nodes {
-		if i == 0 {
+		if i <= 1 { // 1 is the constant
 			continue
 		}
 		if n.a == z.LitNull && n.b == z.LitNull {
-- 
2.43.0


From 726fc3e69b6911c9fc9b060c34c58eed044081b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 16/78] fix: Roll unrolls what was added to the circuit after
 NewRoll

---
 logic/roll.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/logic/roll.go b/logic/roll.go
index 3ec3c8a..494d91f 100644
--- a/logic/roll.go
+++ b/logic/roll.go
@@ -25,12 +25,21 @@ func NewRoll(s *S) *Roll {
 // Len returns the length of the unrolling for literal m.
 func (u *Roll) Len(m z.Lit) int {
 	v := m.Var()
+	u.grow()
 	return len(u.dmap[v])
 }
 
+// grow makes room for what was added to u.S.
+func (u *Roll) grow() {
+	for len(u.dmap) < len(u.S.nodes) {
+		u.dmap = append(u.dmap, nil)
+	}
+}
+
 // MaxLen returns the maximum length of any literal in
 // the unrolling.
 func (u *Roll) MaxLen() int {
+	u.grow()
 	ns := u.S.nodes
 	max := 0
 	for i := 1; i < len(ns); i++ {
@@ -49,6 +58,7 @@ func (u *Roll) MaxLen() int {
 // If d < 0, then At panics.
 func (u *Roll) At(m z.Lit, d int) z.Lit {
 	v := m.Var()
+	u.grow()
 	if len(u.dmap[v]) < d {
 		u.At(m, d-1)
 	}
-- 
2.43.0


From 6bc35b562972de0cc82408857a5a025c9c91518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 17/78] fix: a copy of an aiger keeps its inputs and outputs

---
 logic/aiger/aiger.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index c41442c..cfbd3ec 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -93,6 +93,8 @@ func Copy(a *T) *T {
 	}
 	result := &T{
 		S:           a.S.Copy(),
+		Inputs:      append([]z.Lit(nil), a.Inputs...),
+		Outputs:     append([]z.Lit(nil), a.Outputs...),
 		Bad:         make([]z.Lit, len(a.Bad)),
 		Constraints: make([]z.Lit, len(a.Constraints)),
 		Justice:     make([][]z.Lit, len(a.Justice)),
-- 
2.43.0


From 4d91e2890fabd1585cf058fcd5feb4c463f9d132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 18/78] fix: only what is in an aiger can be named

---
 logic/aiger/aiger.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index cfbd3ec..bf032d2 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -126,7 +126,7 @@ func (a *T) Sys() *logic.S {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameInput(index int, nm string) error {
-	if index < 0 || index > len(a.Inputs) {
+	if index < 0 || index >= len(a.Inputs) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -148,7 +148,7 @@ func (a *T) InputName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameLatch(index int, nm string) error {
-	if index < 0 || index > len(a.Latches) {
+	if index < 0 || index >= len(a.Latches) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -180,7 +180,7 @@ func (a *T) NewIn() z.Lit {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameOutput(index int, nm string) error {
-	if index < 0 || index > len(a.Outputs) {
+	if index < 0 || index >= len(a.Outputs) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -202,7 +202,7 @@ func (a *T) OutputName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameBad(index int, nm string) error {
-	if index < 0 || index > len(a.Bad) {
+	if index < 0 || index >= len(a.Bad) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -224,7 +224,7 @@ func (a *T) BadName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameConstraint(index int, nm string) error {
-	if index < 0 || index > len(a.Constraints) {
+	if index < 0 || index >= len(a.Constraints) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -246,7 +246,7 @@ func (a *T) ConstraintName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameJustice(index int, nm string) error {
-	if index < 0 || index > len(a.Justice) {
+	if index < 0 || index >= len(a.Justice) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -268,7 +268,7 @@ func (a *T) JusticeName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameFair(index int, nm string) error {
-	if index < 0 || index > len(a.Fair) {
+	if index < 0 || index >= len(a.Fair) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
-- 
2.43.0


From 0d07981bbca19abe67fec919a0993d94882abcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 19/78] fix: the constants are written to aiger with their sign

---
 logic/aiger/aiger.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index bf032d2..c40a52c 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -607,7 +607,11 @@ func (abw *aigerBinWriter) mapLit(m z.Lit) {
 func (abw *aigerBinWriter) forLit(m z.Lit) uint {
 	v := m.Var()
 	a := abw.idMap[v]
-	if a == 0 || m.IsPos() {
+	if v == abw.trueLit.Var() {
+		// aiger variable 0 is false
+		m = m.Not()
+	}
+	if m.IsPos() {
 		return a
 	}
 	return a | 1
@@ -1409,11 +1413,11 @@ func readUint(r *bufio.Reader) (uint, error) {
 // write a literal in AIGER style (modulo 2 gives pos/neg)
 func writeLit(w *bufio.Writer, m, t z.Lit) error {
 	if m == t {
-		_, err := w.WriteString("0")
+		_, err := w.WriteString("1")
 		return err
 	}
 	if m == t.Not() {
-		_, err := w.WriteString("1")
+		_, err := w.WriteString("0")
 		return err
 	}
 	u := m - 2
-- 
2.43.0


From f8683aa62993f34a148795e80e923f8dadb98d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 20/78] fix: the inputs of binary aiger gates are ordered by
 their aiger numbers

---
 logic/aiger/aiger.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index c40a52c..304e916 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -624,12 +624,13 @@ func (abw *aigerBinWriter) writeBinAnd(s *logic.S, m z.Lit) {
 	if s.Type(m) != logic.SAnd {
 		return
 	}
-	// *logic.S stores c0 < c1, aiger
-	// wants c0 > c1, so we swap
-	// the assignment to c1, c0 :=
+	// aiger wants c0 > c1 in its own numbering.
 	c1, c0 := s.Ins(m)
 	mc0 := abw.forLit(c0)
 	mc1 := abw.forLit(c1)
+	if mc0 < mc1 {
+		mc0, mc1 = mc1, mc0
+	}
 	me := abw.forLit(m)
 	delta0 := me - mc0
 	delta1 := mc0 - mc1
-- 
2.43.0


From 78c49b711f8a5a219e8988ab87aa934a611c30e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 21/78] fix: aiger gates are written unsigned

---
 logic/aiger/dfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/aiger/dfs.go b/logic/aiger/dfs.go
index 8459fb6..78a3a72 100644
--- a/logic/aiger/dfs.go
+++ b/logic/aiger/dfs.go
@@ -44,6 +44,6 @@ func (d *sDfs) vis(m z.Lit) {
 		d.vis(c0)
 		d.vis(c1)
 	}
-	d.fn(d.s, m)
+	d.fn(d.s, m.Var().Pos())
 	d.marks[m.Var()] = 2
 }
-- 
2.43.0


From 29e267890471bd80360143a9526e32a1829a0f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:38 +0000
Subject: [PATCH 22/78] fix: write all the gates the aiger header counts

---
 logic/aiger/aiger.go | 4 ++++
 logic/aiger/dfs.go   | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 304e916..18068ff 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -390,6 +390,7 @@ func (a *T) WriteBinary(w io.Writer) error {
 		dfs.post(ma...)
 	}
 	dfs.post(a.Fair...)
+	dfs.postAll()
 	dfs.reset()
 
 	// Stage2: write the remaining data.  Latches
@@ -433,10 +434,12 @@ func (a *T) WriteBinary(w io.Writer) error {
 	dfs.post(a.Outputs...)
 	dfs.post(nexts...)
 	dfs.post(a.Bad...)
+	dfs.post(a.Constraints...)
 	for _, ma := range a.Justice {
 		dfs.post(ma...)
 	}
 	dfs.post(a.Fair...)
+	dfs.postAll()
 	a.writeSymtab(bw)
 	// finally write comment
 	writeComment(bw)
@@ -586,6 +589,7 @@ func (a *T) writeAsciiAnds(w *bufio.Writer) {
 	}
 	dfs.post(a.Fair...)
 	dfs.post(nexts...)
+	dfs.postAll()
 }
 
 // state information for binary writer
diff --git a/logic/aiger/dfs.go b/logic/aiger/dfs.go
index 78a3a72..01d0104 100644
--- a/logic/aiger/dfs.go
+++ b/logic/aiger/dfs.go
@@ -31,6 +31,13 @@ func (d *sDfs) post(ms ...z.Lit) {
 	}
 }
 
+// postAll posts every node, as the header of an aiger counts all gates.
+func (d *sDfs) postAll() {
+	for i := 1; i < d.s.Len(); i++ {
+		d.vis(d.s.At(i))
+	}
+}
+
 func (d *sDfs) vis(m z.Lit) {
 	if d.marks[m.Var()] == 2 {
 		return
-- 
2.43.0


From a7420bc491361be096108ef13fbce6e509595f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 23/78] fix: aiger gates which simplify keep their sign when
 read

---
 logic/aiger/aiger.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 18068ff..5759bda 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -671,7 +671,7 @@ type aigerReader struct {
 	AigConstraints []uint
 	AigJustice     [][]uint
 	AigFair        []uint
-	varMap         []z.Var
+	varMap         []z.Lit
 	AigAnds        []aigAnd
 }
 
@@ -686,14 +686,14 @@ func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 		AigConstraints: make([]uint, 0, hdr.Constraint),
 		AigJustice:     make([][]uint, 0, hdr.Justice),
 		AigFair:        make([]uint, 0, hdr.Fair),
-		varMap:         make([]z.Var, hdr.Max+1),
+		varMap:         make([]z.Lit, hdr.Max+1),
 		AigAnds:        nil}
-	abr.varMap[0] = a.S.F.Var()
+	abr.varMap[0] = a.S.F
 	return abr
 }
 
 func (abr *aigerReader) mapLit(aigerLit uint, m z.Lit) {
-	abr.varMap[int(aigerLit>>1)] = m.Var()
+	abr.varMap[int(aigerLit>>1)] = m
 }
 
 func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
@@ -705,14 +705,14 @@ func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
 	}
 	v := aigerLit >> 1
 
-	rv := abr.varMap[v]
-	if rv == 0 {
+	m := abr.varMap[v]
+	if m == z.LitNull {
 		return z.LitNull
 	}
 	if aigerLit&1 != 0 {
-		return rv.Pos().Not()
+		return m.Not()
 	}
-	return rv.Pos()
+	return m
 }
 
 // once everything is read, we can use the aiglit to gini Literal
-- 
2.43.0


From fb40f4c135897d13f8e01a772a4fd1bf31950798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 24/78] fix: aiger gates over constants are read, and multiple
 definitions rejected

---
 logic/aiger/aiger.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 5759bda..94d0092 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -34,6 +34,7 @@ var (
 	SignedAnd          = errors.New("and gate def is negated")
 	CombLoop           = errors.New("combinational logic has a loop")
 	AndMultiplyDefined = errors.New("and gate multiply defined")
+	MultiplyDefined    = errors.New("literal multiply defined")
 	UndefinedLit       = errors.New("literal not defined")
 )
 
@@ -1022,6 +1023,8 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 
 func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) error {
 	aigrdr.AigAnds = make([]aigAnd, hdr.Max+1, hdr.Max+1)
+	aigrdr.AigAnds[0].defined = true // the constant
+	aigrdr.AigAnds[0].mapped = true
 	var i uint
 	for i = 0; i < hdr.And; i++ {
 		g, gErr := readUint(r)
@@ -1095,11 +1098,17 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 func (aigrdr *aigerReader) mapAnds() error {
 	for _, m := range aigrdr.AigInputs {
 		ag := &aigrdr.AigAnds[int(m>>1)]
+		if ag.defined {
+			return MultiplyDefined
+		}
 		ag.defined = true
 		ag.mapped = true
 	}
 	for _, m := range aigrdr.AigLatches {
 		ag := &aigrdr.AigAnds[int(m>>1)]
+		if ag.defined {
+			return MultiplyDefined
+		}
 		ag.defined = true
 		ag.mapped = true
 	}
-- 
2.43.0


From 7e1dfbe4456186e8e8591642ef3af0208f0113da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 25/78] fix: uninitialized latches of ascii aiger are given by
 their literal

---
 logic/aiger/aiger.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 94d0092..28f62bd 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -667,6 +667,7 @@ type aigerReader struct {
 	AigInputs      []uint // only used in ascii reading
 	AigLatches     []uint // only used in ascii reading
 	AigLatchNexts  []uint
+	AigLatchInits  []uint
 	AigOutputs     []uint
 	AigBad         []uint
 	AigConstraints []uint
@@ -682,6 +683,7 @@ func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 		AigInputs:      make([]uint, 0, hdr.In),
 		AigLatches:     make([]uint, 0, hdr.Latch),
 		AigLatchNexts:  make([]uint, 0, hdr.Latch),
+		AigLatchInits:  make([]uint, 0, hdr.Latch),
 		AigOutputs:     make([]uint, 0, hdr.Out),
 		AigBad:         make([]uint, 0, hdr.Bad),
 		AigConstraints: make([]uint, 0, hdr.Constraint),
@@ -733,6 +735,16 @@ func (aigrdr *aigerReader) commit(ascii bool) error {
 			return UndefinedLit
 		}
 		aigrdr.SetNext(m, n)
+		switch aigrdr.AigLatchInits[i] {
+		case 0:
+			aigrdr.SetInit(m, aigrdr.S.F)
+		case 1:
+			aigrdr.SetInit(m, aigrdr.S.T)
+		case id:
+			aigrdr.SetInit(m, z.LitNull)
+		default:
+			return InvalidLatchInit
+		}
 	}
 	for _, u := range aigrdr.AigOutputs {
 
@@ -789,6 +801,9 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 			if latchErr != nil {
 				return latchErr
 			}
+			if latch > hdr.Max*2+1 {
+				return LitOOB
+			}
 			if latch&1 != 0 {
 				return SignedLatch
 			}
@@ -826,7 +841,7 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 			return ReadError
 		}
 		if b == '\n' {
-			abr.S.SetInit(m, abr.S.F)
+			abr.AigLatchInits = append(abr.AigLatchInits, 0)
 			continue
 		}
 		if b == ' ' {
@@ -834,15 +849,7 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 			if errIni != nil {
 				return errIni
 			}
-			if ini == 0 {
-				abr.SetInit(m, abr.S.F)
-			} else if ini == 1 {
-				abr.SetInit(m, abr.S.T)
-			} else if ini == (i+hdr.In+1)*2 {
-				abr.SetInit(m, 0)
-			} else {
-				return InvalidLatchInit
-			}
+			abr.AigLatchInits = append(abr.AigLatchInits, ini)
 			if err := readNL(br); err != nil {
 				return err
 			}
-- 
2.43.0


From 1bce57a0cf84cb58a971e71d8893988db47367f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 26/78] fix: the aiger readers report read errors

---
 logic/aiger/aiger.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 28f62bd..a5f91cd 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1174,6 +1174,9 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 		if e == io.EOF {
 			return nil
 		}
+		if e != nil {
+			return e
+		}
 		if b == 'i' || b == 'l' || b == 'o' || b == 'b' || b == 'c' || b == 'j' || b == 'f' {
 			// symtab must precede comments
 			if b == 'c' {
@@ -1230,6 +1233,8 @@ func (ar *aigerReader) readComments(r *bufio.Reader) error {
 			}
 		} else if err == io.EOF {
 			return nil
+		} else if err != nil {
+			return err
 		}
 	}
 	panic("unreachable")
@@ -1322,6 +1327,9 @@ func readHeader(r *bufio.Reader) (*aigerHeader, error) {
 		if e == io.EOF {
 			return nil, PrematureEOF
 		}
+		if e != nil {
+			return nil, e
+		}
 		if b == '\n' {
 			if i < 5 {
 				return nil, BadHeader
@@ -1409,9 +1417,7 @@ func readUint(r *bufio.Reader) (uint, error) {
 	for {
 		b, e := r.ReadByte()
 		if e == io.EOF {
-			if first {
-				return 0, PrematureEOF
-			}
+			return 0, PrematureEOF
 		}
 		if e != nil {
 			return 0, e
@@ -1470,6 +1476,12 @@ func read7(r *bufio.Reader) (result uint, err error) {
 		if e == io.EOF {
 			return 0, PrematureEOF
 		}
+		if e != nil {
+			return 0, e
+		}
+		if i >= 9 {
+			return 0, BadDeltaEncoding
+		}
 		result |= (uint(b) & 0x7f) << uint8(7*i)
 		i++
 		if b&0x80 == 0 {
-- 
2.43.0


From cb44e7856e556ebf4c3213dbbaeab9970001e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 27/78] fix: the aiger readers check the header and the numbers

---
 logic/aiger/aiger.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index a5f91cd..3970a5d 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1009,7 +1009,7 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 		if err0 != nil {
 			return err0
 		}
-		if delta0 > id {
+		if delta0 == 0 || delta0 > id {
 			return BadDeltaEncoding
 		}
 		c0 := id - delta0
@@ -1240,6 +1240,9 @@ func (ar *aigerReader) readComments(r *bufio.Reader) error {
 	panic("unreachable")
 }
 
+// literals of variables up to maxVar fit in a z.Lit
+const maxVar = 1<<31 - 3
+
 // header for aiger v 1.9
 type aigerHeader struct {
 	Binary     bool
@@ -1350,6 +1353,10 @@ func readHeader(r *bufio.Reader) (*aigerHeader, error) {
 	result.Constraint = counts[6]
 	result.Justice = counts[7]
 	result.Fair = counts[8]
+	if result.Max > maxVar || result.In > result.Max || result.Latch > result.Max ||
+		result.And > result.Max || result.In+result.Latch+result.And > result.Max {
+		return nil, BadHeader
+	}
 	return result, nil
 }
 
@@ -1425,6 +1432,9 @@ func readUint(r *bufio.Reader) (uint, error) {
 		if b >= '0' && b <= '9' {
 			result *= 10
 			result += uint(b - '0')
+			if result > 2*maxVar+1 {
+				return 0, BadUInt
+			}
 			first = false
 			continue
 		}
-- 
2.43.0


From 78ca7d6d443fe72148ba831f1a20df9f75d14702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 28/78] fix: what is left over after the gates of an aiger is
 not skipped

---
 logic/aiger/aiger.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 3970a5d..59dd0bb 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1215,6 +1215,8 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 				return err
 			}
 			aigrdr.symbols[b][int(index)] = string(bytes[0 : len(bytes)-1])
+		} else {
+			return UnexpectedChar
 		}
 	}
 	panic("unreachable")
-- 
2.43.0


From dcef530013754a2bb213fff04de73829228da2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:57 +0000
Subject: [PATCH 29/78] fix: justice properties of aigers may be longer than
 there are literals

---
 logic/aiger/aiger.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 59dd0bb..e5e235a 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -953,9 +953,6 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 		if err != nil {
 			return err
 		}
-		if v > 2*max+1 {
-			return LitOOB
-		}
 		counts = append(counts, int(v))
 		if err := readNL(r); err != nil {
 			return err
-- 
2.43.0


From 000c22ac114da4ffb9d835322c85b04d9adfb03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 30/78] fix: aiger readers allocate for what is in the file,
 not for what the header says

---
 logic/aiger/aiger.go | 112 ++++++++++++++++++++++++++-----------------
 1 file changed, 67 insertions(+), 45 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index e5e235a..fec1d96 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -460,7 +460,7 @@ func ReadAscii(r io.Reader) (*T, error) {
 	if hdr.Binary {
 		return nil, BinaryMismatch
 	}
-	aiger := Make(int(hdr.Max + 1))
+	aiger := Make(capHint(hdr.Max + 1))
 	aigrdr := makeAigerReader(aiger, hdr)
 	if err := aigrdr.readAsciiInputs(hdr, br); err != nil {
 		return nil, err
@@ -508,7 +508,7 @@ func ReadBinary(r io.Reader) (*T, error) {
 	if !hdr.Binary {
 		return nil, BinaryMismatch
 	}
-	aiger := Make(int(hdr.Max + 1))
+	aiger := Make(capHint(hdr.Max + 1))
 	aigrdr := makeAigerReader(aiger, hdr)
 	var i uint
 	for i = 0; i < hdr.In; i++ {
@@ -673,30 +673,31 @@ type aigerReader struct {
 	AigConstraints []uint
 	AigJustice     [][]uint
 	AigFair        []uint
-	varMap         []z.Lit
-	AigAnds        []aigAnd
+	varMap         map[uint]z.Lit
+	AigAnds        map[uint]*aigAnd
+	AigAndLits     []uint // in the order of the file
 }
 
 func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 	abr := &aigerReader{
 		T:              a,
-		AigInputs:      make([]uint, 0, hdr.In),
-		AigLatches:     make([]uint, 0, hdr.Latch),
-		AigLatchNexts:  make([]uint, 0, hdr.Latch),
-		AigLatchInits:  make([]uint, 0, hdr.Latch),
-		AigOutputs:     make([]uint, 0, hdr.Out),
-		AigBad:         make([]uint, 0, hdr.Bad),
-		AigConstraints: make([]uint, 0, hdr.Constraint),
-		AigJustice:     make([][]uint, 0, hdr.Justice),
-		AigFair:        make([]uint, 0, hdr.Fair),
-		varMap:         make([]z.Lit, hdr.Max+1),
+		AigInputs:      make([]uint, 0, capHint(hdr.In)),
+		AigLatches:     make([]uint, 0, capHint(hdr.Latch)),
+		AigLatchNexts:  make([]uint, 0, capHint(hdr.Latch)),
+		AigLatchInits:  make([]uint, 0, capHint(hdr.Latch)),
+		AigOutputs:     make([]uint, 0, capHint(hdr.Out)),
+		AigBad:         make([]uint, 0, capHint(hdr.Bad)),
+		AigConstraints: make([]uint, 0, capHint(hdr.Constraint)),
+		AigJustice:     make([][]uint, 0, capHint(hdr.Justice)),
+		AigFair:        make([]uint, 0, capHint(hdr.Fair)),
+		varMap:         make(map[uint]z.Lit, capHint(hdr.Max+1)),
 		AigAnds:        nil}
 	abr.varMap[0] = a.S.F
 	return abr
 }
 
 func (abr *aigerReader) mapLit(aigerLit uint, m z.Lit) {
-	abr.varMap[int(aigerLit>>1)] = m
+	abr.varMap[aigerLit>>1] = m
 }
 
 func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
@@ -768,14 +769,16 @@ func (aigrdr *aigerReader) commit(ascii bool) error {
 		}
 		aigrdr.Constraints = append(aigrdr.Constraints, m)
 	}
-	for i, ua := range aigrdr.AigJustice {
-		for j, u := range ua {
+	for _, ua := range aigrdr.AigJustice {
+		ms := make([]z.Lit, 0, len(ua))
+		for _, u := range ua {
 			m := aigrdr.litFor(u)
 			if m == 0 {
 				return UndefinedLit
 			}
-			aigrdr.Justice[i][j] = m
+			ms = append(ms, m)
 		}
+		aigrdr.Justice = append(aigrdr.Justice, ms)
 	}
 	for _, u := range aigrdr.AigFair {
 		m := aigrdr.litFor(u)
@@ -885,7 +888,7 @@ func (aigrdr *aigerReader) readAsciiInputs(hdr *aigerHeader, r *bufio.Reader) er
 }
 
 func (abr *aigerReader) readOutputs(nOut, max uint, r *bufio.Reader) error {
-	abr.AigOutputs = make([]uint, 0, nOut)
+	abr.AigOutputs = make([]uint, 0, capHint(nOut))
 	var i uint
 	for i = 0; i < nOut; i++ {
 		u, e := readUint(r)
@@ -904,8 +907,8 @@ func (abr *aigerReader) readOutputs(nOut, max uint, r *bufio.Reader) error {
 }
 
 func (abr *aigerReader) readBad(r *bufio.Reader, count, max uint) error {
-	abr.AigBad = make([]uint, 0, int(count))
-	abr.Bad = make([]z.Lit, 0, int(count))
+	abr.AigBad = make([]uint, 0, capHint(count))
+	abr.Bad = make([]z.Lit, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -924,8 +927,8 @@ func (abr *aigerReader) readBad(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readConstraints(r *bufio.Reader, count, max uint) error {
-	a.AigConstraints = make([]uint, 0, int(count))
-	a.Constraints = make([]z.Lit, 0, int(count))
+	a.AigConstraints = make([]uint, 0, capHint(count))
+	a.Constraints = make([]z.Lit, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -944,24 +947,23 @@ func (a *aigerReader) readConstraints(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
-	a.Justice = make([][]z.Lit, int(count), int(count))
-	a.AigJustice = make([][]uint, 0, int(count))
-	counts := make([]int, 0, int(count))
+	a.Justice = make([][]z.Lit, 0, capHint(count))
+	a.AigJustice = make([][]uint, 0, capHint(count))
+	counts := make([]uint, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
 		if err != nil {
 			return err
 		}
-		counts = append(counts, int(v))
+		counts = append(counts, v)
 		if err := readNL(r); err != nil {
 			return err
 		}
 	}
 	for i, c := range counts {
-		a.AigJustice = append(a.AigJustice, make([]uint, c, c))
-		a.Justice[i] = make([]z.Lit, c, c)
-		for j := 0; j < c; j++ {
+		a.AigJustice = append(a.AigJustice, make([]uint, 0, capHint(c)))
+		for j := uint(0); j < c; j++ {
 			v, err := readUint(r)
 			if err != nil {
 				return err
@@ -969,7 +971,7 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 			if v > 2*max+1 {
 				return LitOOB
 			}
-			a.AigJustice[i][j] = v
+			a.AigJustice[i] = append(a.AigJustice[i], v)
 			if err := readNL(r); err != nil {
 				return err
 			}
@@ -979,8 +981,8 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readFair(r *bufio.Reader, count, max uint) error {
-	a.AigFair = make([]uint, 0, int(count))
-	a.Fair = make([]z.Lit, 0, int(count))
+	a.AigFair = make([]uint, 0, capHint(count))
+	a.Fair = make([]z.Lit, 0, capHint(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -1026,9 +1028,9 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 }
 
 func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) error {
-	aigrdr.AigAnds = make([]aigAnd, hdr.Max+1, hdr.Max+1)
-	aigrdr.AigAnds[0].defined = true // the constant
-	aigrdr.AigAnds[0].mapped = true
+	aigrdr.AigAnds = make(map[uint]*aigAnd, capHint(hdr.Max+1))
+	aigrdr.and(0).defined = true // the constant
+	aigrdr.and(0).mapped = true
 	var i uint
 	for i = 0; i < hdr.And; i++ {
 		g, gErr := readUint(r)
@@ -1085,11 +1087,12 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 			return err
 		}
 		// define the gate in terms of AigAnds
-		aa := &aigrdr.AigAnds[int(g>>1)]
+		aa := aigrdr.and(g)
 		if aa.defined {
 			return AndMultiplyDefined
 		}
 		aa.defined = true
+		aigrdr.AigAndLits = append(aigrdr.AigAndLits, g)
 		aa.children[0] = c0
 		aa.children[1] = c1
 	}
@@ -1099,9 +1102,19 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 	return nil
 }
 
+// and gives the record of the variable of an aiger literal.
+func (aigrdr *aigerReader) and(aigerLit uint) *aigAnd {
+	aa, ok := aigrdr.AigAnds[aigerLit>>1]
+	if !ok {
+		aa = &aigAnd{}
+		aigrdr.AigAnds[aigerLit>>1] = aa
+	}
+	return aa
+}
+
 func (aigrdr *aigerReader) mapAnds() error {
 	for _, m := range aigrdr.AigInputs {
-		ag := &aigrdr.AigAnds[int(m>>1)]
+		ag := aigrdr.and(m)
 		if ag.defined {
 			return MultiplyDefined
 		}
@@ -1109,17 +1122,17 @@ func (aigrdr *aigerReader) mapAnds() error {
 		ag.mapped = true
 	}
 	for _, m := range aigrdr.AigLatches {
-		ag := &aigrdr.AigAnds[int(m>>1)]
+		ag := aigrdr.and(m)
 		if ag.defined {
 			return MultiplyDefined
 		}
 		ag.defined = true
 		ag.mapped = true
 	}
-	for i := 0; i < len(aigrdr.AigAnds); i++ {
-		ag := &aigrdr.AigAnds[i]
-		if ag.defined && !ag.mapped {
-			if err := aigrdr.mapAndsRec(ag, uint(i*2)); err != nil {
+	for _, g := range aigrdr.AigAndLits {
+		ag := aigrdr.and(g)
+		if !ag.mapped {
+			if err := aigrdr.mapAndsRec(ag, g); err != nil {
 				return err
 			}
 		}
@@ -1132,7 +1145,7 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 	case 0:
 		ag.dfsColor = 1
 		c0, c1 := ag.children[0], ag.children[1]
-		ag0 := &aigrdr.AigAnds[int(c0>>1)]
+		ag0 := aigrdr.and(c0)
 		if !ag0.defined {
 			return UndefinedLit
 		}
@@ -1143,7 +1156,7 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 		}
 		m := aigrdr.litFor(c0)
 
-		ag1 := &aigrdr.AigAnds[int(c1>>1)]
+		ag1 := aigrdr.and(c1)
 		if !ag1.defined {
 			return UndefinedLit
 		}
@@ -1239,6 +1252,15 @@ func (ar *aigerReader) readComments(r *bufio.Reader) error {
 	panic("unreachable")
 }
 
+// capHint limits what is allocated for the numbers in a file before the
+// data they announce has been read.
+func capHint(n uint) int {
+	if n > 1<<16 {
+		return 1 << 16
+	}
+	return int(n)
+}
+
 // literals of variables up to maxVar fit in a z.Lit
 const maxVar = 1<<31 - 3
 
-- 
2.43.0


From 1bf0e9ae71e705ad3e533f6bb5bd3c45506d8dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 31/78] fix: the deadline of Try does not outlive it

---
 internal/xo/s.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index cf20ca9..d03844b 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -195,6 +195,7 @@ func (s *S) Try(dur time.Duration) int {
 	}
 	s.startTime = time.Now()
 	s.deadline = s.startTime.Add(dur)
+	defer func() { s.deadline = s.startTime }()
 	return s.Solve()
 }
 
-- 
2.43.0


From bdba2a44fef4b0008fa4e4eac4048676bfe7ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 32/78] fix: Stop of an ax ends all its goroutines and lets
 exchanges under way return

Stop closed the request channel, so a concurrent Ex panicked, it waited for
idle units to take a cancellation they never take, and units or the server
which had a response nobody takes stayed for ever.
---
 ax/ax.go | 62 ++++++++++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/ax/ax.go b/ax/ax.go
index 0fae038..59c7a4c 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -4,6 +4,7 @@
 package ax
 
 import (
+	"sync"
 	"time"
 
 	"github.com/go-air/gini/inter"
@@ -77,9 +78,8 @@ func NewT(proto inter.S, cap int) T {
 // outstanding (*), then pool accepts one more request and waits for a u to
 // become available.
 //
-// When the ax receives a channel close on the request channel from the
-// client, it immediately shuts down the u's, which select on a cancelation
-// channel along with their request channel.
+// When the client stops the ax, the ax and the u's, which all select on the
+// same cancelation channel, end.
 //
 //
 // -ax-(s)-----<Req<----------(s)---Client
@@ -133,6 +133,8 @@ type ax struct {
 	reqChn   chan *Request
 	respChn  chan *Response
 	uRespChn chan *Response
+	done     chan struct{} // closed by Stop
+	stopOnce sync.Once
 	us       []*unit
 	avail    []int
 	cap      int
@@ -147,10 +149,11 @@ func newAx(proto inter.S, cap int) *ax {
 		reqChn:   make(chan *Request),
 		respChn:  make(chan *Response),
 		uRespChn: make(chan *Response, 1),
+		done:     make(chan struct{}),
 		us:       make([]*unit, 1, cap),
 		avail:    make([]int, 1, cap),
 		cap:      cap}
-	m.us[0] = newUnit(proto, 0)
+	m.us[0] = newUnit(proto, 0, m.done)
 	m.avail[0] = 0
 	go m.serve()
 	return m
@@ -158,13 +161,20 @@ func newAx(proto inter.S, cap int) *ax {
 
 func (m *ax) Ex(req *Request) *Response {
 	if req == nil {
-		return <-m.respChn
+		select {
+		case resp := <-m.respChn:
+			return resp
+		case <-m.done:
+			return nil
+		}
 	}
 	select {
 	case m.reqChn <- req:
 		return nil
 	case resp := <-m.respChn:
 		return resp
+	case <-m.done:
+		return nil
 	}
 }
 
@@ -189,28 +199,30 @@ func (m *ax) TryEx(req *Request) (*Response, bool) {
 }
 
 func (m *ax) Stop() {
-	close(m.reqChn)
+	m.stopOnce.Do(func() { close(m.done) })
 }
 
 func (m *ax) serve() {
 	for {
 		select {
-		case req, ok := <-m.reqChn:
-			if !ok {
-				m.shutdown()
-				return
-			}
+		case req := <-m.reqChn:
 			m.handleReq(req)
 		case resp := <-m.uRespChn:
 			m.handleResp(resp)
+		case <-m.done:
+			return
 		}
 	}
 }
 
 func (m *ax) handleReq(req *Request) {
 	if len(m.avail) == 0 {
-		resp := <-m.uRespChn
-		m.handleResp(resp)
+		select {
+		case resp := <-m.uRespChn:
+			m.handleResp(resp)
+		case <-m.done:
+			return
+		}
 	}
 	u := m.getunit(req)
 	//log.Printf("start request %d by %d\n", req.Id, u.I)
@@ -228,7 +240,7 @@ func (m *ax) getunit(req *Request) *unit {
 		ai := m.avail[0]
 		protounit := m.us[ai]
 		m.avail = append(m.avail, len(m.us))
-		m.us = append(m.us, newUnit(protounit.S.SCopy(), len(m.us)))
+		m.us = append(m.us, newUnit(protounit.S.SCopy(), len(m.us), m.done))
 	}
 
 	//log.Printf("avail %+v/%d/%d\n", m.avail, len(m.us), m.cap)
@@ -252,14 +264,9 @@ func (m *ax) getunit(req *Request) *unit {
 
 func (m *ax) handleResp(resp *Response) {
 	m.avail = append(m.avail, resp.Who)
-	m.respChn <- resp // shouldn't block if client agrees to API
-}
-
-func (m *ax) shutdown() {
-	for _, u := range m.us {
-		if u != nil {
-			u.cancel <- struct{}{}
-		}
+	select {
+	case m.respChn <- resp: // shouldn't block if client agrees to API
+	case <-m.done:
 	}
 }
 
@@ -267,18 +274,18 @@ type unit struct {
 	I      int
 	S      inter.S
 	Solve  inter.Solve
-	cancel chan struct{}
+	cancel <-chan struct{} // closed when the ax is stopped
 	Start  time.Time
 	Pos    []int // Pos[var] gives count of supplied cubes with positive sign for var
 	Neg    []int
 }
 
-func newUnit(s inter.S, i int) *unit {
+func newUnit(s inter.S, i int, cancel <-chan struct{}) *unit {
 	return &unit{
 		I:      i,
 		S:      s,
 		Solve:  nil,
-		cancel: make(chan struct{}),
+		cancel: cancel,
 		Pos:    make([]int, s.MaxVar()+1),
 		Neg:    make([]int, s.MaxVar()+1)}
 }
@@ -352,7 +359,10 @@ func (u *unit) handleResult(req *Request, res int, c chan<- *Response) {
 	}
 
 	//log.Printf("end req %d by %d:%p\n", req.Id, u.I, u.S)
-	c <- resp
+	select {
+	case c <- resp:
+	case <-u.cancel:
+	}
 }
 
 func (u *unit) score(ms []z.Lit) int {
-- 
2.43.0


From 9dc31ea9be3be458e38438b8755f0ed57bd471b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 33/78] fix: responses of an ax give the number of pending
 requests

---
 ax/ax.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ax/ax.go b/ax/ax.go
index 59c7a4c..fecd8cd 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -138,6 +138,7 @@ type ax struct {
 	us       []*unit
 	avail    []int
 	cap      int
+	pending  int // requests accepted for which no response was given
 }
 
 func newAx(proto inter.S, cap int) *ax {
@@ -216,6 +217,7 @@ func (m *ax) serve() {
 }
 
 func (m *ax) handleReq(req *Request) {
+	m.pending++
 	if len(m.avail) == 0 {
 		select {
 		case resp := <-m.uRespChn:
@@ -264,6 +266,8 @@ func (m *ax) getunit(req *Request) *unit {
 
 func (m *ax) handleResp(resp *Response) {
 	m.avail = append(m.avail, resp.Who)
+	m.pending--
+	resp.Pending = m.pending
 	select {
 	case m.respChn <- resp: // shouldn't block if client agrees to API
 	case <-m.done:
-- 
2.43.0


From 4704292322ae2190c3ca53b15bd2f719f9de3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 34/78] fix: RequestGen.Limit locks like the other methods

---
 ax/req.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ax/req.go b/ax/req.go
index 90ab68c..70cf2d6 100644
--- a/ax/req.go
+++ b/ax/req.go
@@ -99,6 +99,8 @@ func (g *RequestGen) New(ms ...z.Lit) *Request {
 // Limit causes requests generated by g.New() to
 // have time limit d.
 func (g *RequestGen) Limit(d time.Duration) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
 	g.limit = d
 }
 
-- 
2.43.0


From b9049d122f370876f4f493840560aa52ea1c39ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 35/78] fix: crisp connections keep what was read ahead when
 they write

Reading and writing shared one buffer, so a reply discarded the requests the
peer had already sent, and was not sent itself.
---
 crisp/vu32io.go | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 1a1816c..15621ee 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -17,13 +17,13 @@ import (
 // 2. encoding/binary keeps a separate buffer for each value, we code directly
 // to the underlying buffer of the buffered io.
 // 3. we are not safe for multiple goroutines (unliked buffered io)
-// 4. encoding/binary's buffered io needs a separate buffer for reading and
-// writing, we don't in this context.
 
 type vu32io struct {
 	rw   io.ReadWriter
-	buf  []byte
-	r, w int
+	buf  []byte // data read
+	r, w int    // buf[r:w] is not yet consumed
+	out  []byte // data to write
+	n    int    // out[:n] is not yet flushed
 }
 
 const (
@@ -35,7 +35,8 @@ func newVu32Io(rw io.ReadWriter) *vu32io {
 		rw:  rw,
 		r:   0,
 		w:   0,
-		buf: make([]byte, 1024)}
+		buf: make([]byte, 1024),
+		out: make([]byte, 1024)}
 }
 
 func (io *vu32io) readu32() (uint32, error) {
@@ -135,28 +136,24 @@ func (io *vu32io) readByte() (byte, error) {
 }
 
 func (io *vu32io) writeByte(b byte) error {
-	if io.r >= len(io.buf) {
+	if io.n >= len(io.out) {
 		if e := io.flush(); e != nil {
 			return e
 		}
 	}
-	io.buf[io.r] = b
-	io.r++
+	io.out[io.n] = b
+	io.n++
 	return nil
 }
 
+// fill is called when all data read is consumed.
 func (vio *vu32io) fill() error {
-	if vio.r > vio.w {
-		return fmt.Errorf("fill without write flush")
-	}
-	if vio.r == vio.w {
-		vio.r = 0
-		vio.w = 0
-	}
+	vio.r = 0
+	vio.w = 0
 	// shouldn't give both zero length read and nil error
 	// but just in case we try a few times
 	for i := 0; i < 10; i++ {
-		nn, e := vio.rw.Read(vio.buf[vio.w:])
+		nn, e := vio.rw.Read(vio.buf)
 		vio.w += nn
 		if nn > 0 {
 			return nil
@@ -170,11 +167,11 @@ func (vio *vu32io) fill() error {
 }
 
 func (io *vu32io) flush() error {
-	n := io.r
-	m := io.w
+	n := io.n
+	m := 0
 	k := 0
 	for m < n {
-		o, e := io.rw.Write(io.buf[m:n])
+		o, e := io.rw.Write(io.out[m:n])
 		m += o
 		if o > 0 {
 			k = 0
@@ -187,7 +184,6 @@ func (io *vu32io) flush() error {
 			return fmt.Errorf("repeated zero length no-error writes.")
 		}
 	}
-	io.r = 0
-	io.w = 0
+	io.n = 0
 	return nil
 }
-- 
2.43.0


From 2e567f04562725c9065a1ec5828c14d8a74f3599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:49 +0000
Subject: [PATCH 36/78] fix: crisp numbers which do not fit 32 bits are an
 error

---
 crisp/vu32io.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 15621ee..9bb3132 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -52,7 +52,9 @@ func (io *vu32io) readu32() (uint32, error) {
 			return 0, e
 		}
 		z := uint32(b) & VarUintMask
-
+		if i == 4 && z > 0xf {
+			return 0, ErrVarUint // does not fit 32 bits
+		}
 		res = res | (z << s)
 		if b&(1<<7) == 0 {
 			return res, nil
-- 
2.43.0


From e5ba8de24a888de188182a79f537469f0577c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 37/78] fix: the crisp server follows the order of requests and
 answers errors

A solve which is under way is stopped when the connection ends; requests other
than continue and end during a solve, and continue and end after it, are out of
order instead of racing with the solver or blocking for ever; model and failed
requests are allowed after any sat or unsat answer and get the documented
errors otherwise; what is not a number or a literal is answered by an error.
---
 crisp/handler.go | 74 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index f84fbc6..9464b72 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -80,6 +80,10 @@ func (h *Handler) cleanup() {
 		log.Printf("%d cleanup\n", h.id)
 	}
 	h.conn.Close()
+	if h.proto == Solve {
+		h.solveConn.Stop()
+	}
+	h.solveConn = nil
 	h.uio = nil
 	h.gini = nil
 	h.ms = h.ms[:0]
@@ -94,12 +98,16 @@ func (h *Handler) Crisp() error {
 	for {
 		u, e := uio.readu32()
 		if e != nil {
-			return e
+			return h.readError(e)
 		}
 		p := ProtoPoint(u)
 		if *h.trace {
 			log.Printf("%d received %s\n", h.id, p)
 		}
+		if h.proto == Solve && p != Continue && p != End && p != Quit {
+			// a solve is under way.
+			return h.Error(ErrOutOfOrder)
+		}
 		switch p {
 		case Key:
 			if e := h.handleKey(); e != nil {
@@ -171,13 +179,13 @@ func (h *Handler) handleKey() error {
 	h.proto = Key
 	n, e := h.uio.readu32()
 	if e != nil {
-		return e
+		return h.readError(e)
 	}
 	key := make([]uint32, n)
 	for i := uint32(0); i < n; i++ {
 		m, e := h.uio.readu32()
 		if e != nil {
-			return e
+			return h.readError(e)
 		}
 		key[i] = m
 	}
@@ -205,7 +213,7 @@ func (h *Handler) handleAdd() error {
 	for {
 		m, e = io.readu32()
 		if e != nil {
-			return e
+			return h.readError(e)
 		}
 		if m == uint32(End) {
 			if *h.trace {
@@ -214,7 +222,7 @@ func (h *Handler) handleAdd() error {
 			return nil
 		}
 		if m >= uint32(MinProto) {
-			return fmt.Errorf("CRISP protocol error expected data, got %s", ProtoPoint(m))
+			return h.Error(ErrNotLit)
 		}
 		g.Add(z.Lit(m))
 	}
@@ -225,7 +233,7 @@ func (h *Handler) handleAssume() error {
 	var e error
 	h.ms, e = h.uio.recv(h.ms)
 	if e != nil {
-		return e
+		return h.readError(e)
 	}
 	for _, m := range h.ms {
 		h.gini.Assume(m)
@@ -244,7 +252,7 @@ func (h *Handler) handleSolve() error {
 func (h *Handler) handleContinue() error {
 	if h.proto != Solve {
 		log.Printf("continue but not solving.\n")
-		return ErrOutOfOrder
+		return h.Error(ErrOutOfOrder)
 	}
 	return h.handleStep()
 }
@@ -252,9 +260,8 @@ func (h *Handler) handleContinue() error {
 func (h *Handler) handleEnd() error {
 	if h.proto != Solve {
 		log.Printf("end but not solving\n")
-		return ErrOutOfOrder
+		return h.Error(ErrOutOfOrder)
 	}
-	h.proto = End
 	return h.sendRes(h.solveConn.Stop(), true)
 }
 
@@ -267,9 +274,12 @@ func (h *Handler) handleStep() error {
 	return h.sendRes(res, false)
 }
 
+// sendRes sends a result and places h in the state after it: Solve if the
+// solve is still under way, otherwise Sat, Unsat or End.
 func (h *Handler) sendRes(res int, end bool) error {
 	switch res {
 	case -1:
+		h.proto = Unsat
 		if e := h.uio.writeflush(uint32(Unsat)); e != nil {
 			return e
 		}
@@ -278,6 +288,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		}
 		return nil
 	case 1:
+		h.proto = Sat
 		if e := h.uio.writeflush(uint32(Sat)); e != nil {
 			return e
 		}
@@ -289,6 +300,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		op := uint32(Unknown)
 		if end {
 			op = uint32(End)
+			h.proto = End
 		}
 		if e := h.uio.writeflush(op); e != nil {
 			return e
@@ -302,11 +314,23 @@ func (h *Handler) sendRes(res int, end bool) error {
 	}
 }
 
-func (h *Handler) handleModel() error {
-	if h.proto != Solve {
-		log.Printf("model but not solving.\n")
+// checkAfter checks that the last thing which happened is a solve with answer
+// p, and otherwise sends an error, which is ne if there was another answer.
+func (h *Handler) checkAfter(p ProtoPoint, ne ProtoErr) error {
+	switch h.proto {
+	case p:
+		return nil
+	case Sat, Unsat, End:
+		return h.Error(ne)
+	default:
 		return h.Error(ErrOutOfOrder)
 	}
+}
+
+func (h *Handler) handleModel() error {
+	if e := h.checkAfter(Sat, ErrNotSat); e != nil {
+		return e
+	}
 	var u uint32
 	M := uint32(h.gini.MaxVar())
 	N := M
@@ -337,12 +361,12 @@ func (h *Handler) handleModel() error {
 }
 
 func (h *Handler) handleModelFor() error {
-	if h.proto != Solve {
-		return h.Error(ErrOutOfOrder)
+	if e := h.checkAfter(Sat, ErrNotSat); e != nil {
+		return e
 	}
 	ms, e := h.uio.recv(h.ms)
 	if e != nil {
-		return e
+		return h.readError(e)
 	}
 	M := uint32(len(ms))
 	N := M
@@ -369,9 +393,8 @@ func (h *Handler) handleModelFor() error {
 }
 
 func (h *Handler) handleFailed() error {
-	if h.proto != Solve {
-		log.Printf("failed but not solve\n")
-		return h.Error(ErrOutOfOrder)
+	if e := h.checkAfter(Unsat, ErrNotUnsat); e != nil {
+		return e
 	}
 	fails := h.gini.Why(h.ms)
 	if e := h.uio.send(fails); e != nil {
@@ -381,8 +404,8 @@ func (h *Handler) handleFailed() error {
 }
 
 func (h *Handler) handleFailedFor() error {
-	if h.proto != Solve {
-		return h.Error(ErrOutOfOrder)
+	if e := h.checkAfter(Unsat, ErrNotUnsat); e != nil {
+		return e
 	}
 	fMap := make(map[z.Lit]struct{})
 	h.ms = h.ms[:0]
@@ -394,7 +417,7 @@ func (h *Handler) handleFailedFor() error {
 	h.ms = h.ms[:0]
 	ms, e := h.uio.recv(h.ms)
 	if e != nil {
-		return e
+		return h.readError(e)
 	}
 
 	j := 0
@@ -417,6 +440,15 @@ func (h *Handler) handleQuit() error {
 	return nil
 }
 
+// readError sends e if it is an error of the protocol, rather than of the
+// connection, and returns it.
+func (h *Handler) readError(e error) error {
+	if pe, ok := e.(ProtoErr); ok {
+		return h.Error(pe)
+	}
+	return e
+}
+
 func (h *Handler) Error(e ProtoErr) error {
 	if *h.trace {
 		log.Printf("%d <error> %s\n", h.id, e)
-- 
2.43.0


From 7f079613230d9462ff8d2bcd50c0ada36f0a539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 38/78] fix: the crisp server does not allocate as much as a
 key claims to have

---
 crisp/handler.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 9464b72..28e4292 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -181,13 +181,10 @@ func (h *Handler) handleKey() error {
 	if e != nil {
 		return h.readError(e)
 	}
-	key := make([]uint32, n)
 	for i := uint32(0); i < n; i++ {
-		m, e := h.uio.readu32()
-		if e != nil {
+		if _, e := h.uio.readu32(); e != nil {
 			return h.readError(e)
 		}
-		key[i] = m
 	}
 	// check the key
 	return nil
-- 
2.43.0


From b833210966e77f99aea3c5e1a53e5b3619e6b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 39/78] fix: the crisp server survives literals of variables it
 does not have

---
 crisp/handler.go | 13 +++++++++++--
 crisp/vu32io.go  |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 28e4292..7494959 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -218,7 +218,7 @@ func (h *Handler) handleAdd() error {
 			}
 			return nil
 		}
-		if m >= uint32(MinProto) {
+		if m == 1 || m >= uint32(MinProto) {
 			return h.Error(ErrNotLit)
 		}
 		g.Add(z.Lit(m))
@@ -376,7 +376,7 @@ func (h *Handler) handleModelFor() error {
 	var u uint32
 	for i := uint32(0); i < N; i++ {
 		j := i % 32
-		if i < M && h.gini.Value(ms[i]) {
+		if i < M && h.value(ms[i]) {
 			u = u | (1 << j)
 		}
 		if j == uint32(31) {
@@ -389,6 +389,15 @@ func (h *Handler) handleModelFor() error {
 	return h.uio.flush()
 }
 
+// value is the value of m in the model, where variables which do not occur in
+// the problem are false.
+func (h *Handler) value(m z.Lit) bool {
+	if m.Var() > h.gini.MaxVar() {
+		return !m.IsPos()
+	}
+	return h.gini.Value(m)
+}
+
 func (h *Handler) handleFailed() error {
 	if e := h.checkAfter(Unsat, ErrNotUnsat); e != nil {
 		return e
diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 9bb3132..fe74bca 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -112,7 +112,7 @@ func (io *vu32io) recv(dst []z.Lit) ([]z.Lit, error) {
 		if d == 0 {
 			return dst, nil
 		}
-		if d >= uint32(MinProto) {
+		if d == 1 || d >= uint32(MinProto) { // there is no variable 0
 			return dst, ErrNotLit
 		}
 		dst = append(dst, z.Lit(d))
-- 
2.43.0


From 9237b2c5da2bb7ae1dd1f790e62d9529a3b070f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 40/78] fix: Stop of a crisp solve which has its result returns

---
 crisp/netsolve.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crisp/netsolve.go b/crisp/netsolve.go
index 1b08713..01b7a39 100644
--- a/crisp/netsolve.go
+++ b/crisp/netsolve.go
@@ -39,7 +39,6 @@ func (s *netsolve) Try(d time.Duration) (int, error) {
 func (s *netsolve) Stop() (int, error) {
 	select {
 	case res := <-s.result:
-		s.cancel <- struct{}{}
 		return res.v, res.e
 	case s.cancel <- struct{}{}:
 		r := <-s.result
-- 
2.43.0


From be6d546b543b5771a6731cda11b5f8bd4700e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 41/78] fix: crisp client values are those of the last solve

---
 crisp/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index 365015a..0d3f748 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -155,6 +155,8 @@ func (c *Client) MaxVar() z.Var {
 //
 //  -1 if the problem is unsatisfiable
 func (c *Client) Solve() (int, error) {
+	c.lastSat = 0
+	c.model = nil
 	if e := c.checkState(Solve); e != nil {
 		return 0, e
 	}
@@ -251,7 +253,6 @@ func (c *Client) Model(vs []bool) ([]bool, error) {
 		}
 		vs[i+1] = u&(1<<j) != 0
 	}
-	c.model = vs
 	return vs, nil
 }
 
@@ -262,7 +263,7 @@ func (c *Client) Value(m z.Lit) (bool, error) {
 		if e != nil {
 			return false, e
 		}
-		c.model = m
+		c.model = m // until the next solve
 	}
 	if m.IsPos() {
 		return c.model[m.Var()], nil
@@ -380,6 +381,9 @@ func (c *Client) Reset() error {
 		return e
 	}
 	c.proto = Unknown
+	c.lastSat = 0
+	c.model = nil
+	c.maxVar = 0
 	return nil
 }
 
-- 
2.43.0


From 29c0bd0c6adb6293a86564d088a1cd2307f36d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 42/78] fix: ModelFor uses a slice with just the capacity it
 needs

---
 crisp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/client.go b/crisp/client.go
index 0d3f748..5e6b13d 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -296,7 +296,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 	if cap(dst) < int(theCap) {
 		dst = make([]bool, theCap)
 	} else {
-		dst = dst[:theCap+1]
+		dst = dst[:theCap]
 	}
 	for i := uint32(0); i < theCap-1; i++ {
 		j := i % 32
-- 
2.43.0


From 010d2d4497dca3c2cef53bdf9c38bebb3facc703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 43/78] fix: the crisp client reports errors when it sends
 requests

---
 crisp/client.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index 5e6b13d..558691b 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -51,6 +51,7 @@ func Dial(addr string) (*Client, error) {
 		proto:   Unknown,
 		lastSat: 0}
 	if e := c.Hello(); e != nil {
+		conn.Close()
 		return nil, e
 	}
 	return c, nil
@@ -114,7 +115,9 @@ func (c *Client) fromXo(x *xo.S) error {
 // To terminate the clause, m should 0.
 func (c *Client) Add(m z.Lit) error {
 	if c.proto != Add {
-		c.checkState(Add)
+		if e := c.checkState(Add); e != nil {
+			return e
+		}
 	}
 	if m.Var() > c.maxVar {
 		c.maxVar = m.Var()
@@ -128,7 +131,9 @@ func (c *Client) Assume(ms ...z.Lit) error {
 	if len(ms) == 0 {
 		return nil
 	}
-	c.checkState(Assume)
+	if e := c.checkState(Assume); e != nil {
+		return e
+	}
 	if e := c.io.send(ms); e != nil {
 		return e
 	}
@@ -228,7 +233,7 @@ func (c *Client) Model(vs []bool) ([]bool, error) {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
 	if e := c.checkState(Model); e != nil {
-		return nil, nil
+		return nil, e
 	}
 	var u uint32
 	var n uint32
@@ -277,7 +282,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
 	if e := c.checkState(ModelFor); e != nil {
-		return nil, nil
+		return nil, e
 	}
 	if e := c.io.send(ms); e != nil {
 		return nil, e
@@ -318,7 +323,7 @@ func (c *Client) Why(ms []z.Lit) ([]z.Lit, error) {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
 	if e := c.checkState(Failed); e != nil {
-		return ms, nil
+		return ms, e
 	}
 	return c.io.recv(ms)
 }
@@ -331,7 +336,7 @@ func (c *Client) WhySelect(dst []z.Lit, ms []z.Lit) ([]z.Lit, error) {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
 	if e := c.checkState(FailedFor); e != nil {
-		return dst, nil
+		return dst, e
 	}
 	if e := c.io.send(ms); e != nil {
 		return nil, e
-- 
2.43.0


From 46e318d7effb84399da47c3f67bb9d3d139da8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 44/78] fix: the crisp client gives the error the server sent
 in reply to solve

---
 crisp/client.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crisp/client.go b/crisp/client.go
index 558691b..c1e300d 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -179,6 +179,9 @@ func (c *Client) Solve() (int, error) {
 			if err != nil {
 				return 0, err
 			}
+			return 0, ErrNotOp
+		case Error:
+			return 0, c.serverError()
 		case Sat:
 			c.lastSat = 1
 			return 1, nil
@@ -213,6 +216,15 @@ func (c *Client) Solve() (int, error) {
 	}
 }
 
+// serverError reads what follows an <error>.
+func (c *Client) serverError() error {
+	u, e := c.io.readu32()
+	if e != nil {
+		return e
+	}
+	return ProtoErr(u)
+}
+
 // GoSolve returns a connection to a solve proces
 // in the background.
 func (c *Client) GoSolve() gnet.Solve {
-- 
2.43.0


From d4e63af4a61507169be54781168cade95e87fd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 45/78] fix: the crisp client sends unit and empty clauses of
 dimacs files

---
 crisp/client.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index c1e300d..730cef0 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -84,13 +84,25 @@ func (c *Client) Hello() error {
 // to the server, returning an error if there was
 // a problem
 func (c *Client) Dimacs(r io.Reader) error {
-	vis := &xo.DimacsVis{}
-	if e := dimacs.ReadCnf(r, vis); e != nil {
+	var vis litsVis
+	if e := dimacs.ReadCnf(r, &vis); e != nil {
 		return e
 	}
-	return c.fromXo(vis.S())
+	for _, m := range vis {
+		if e := c.Add(m); e != nil {
+			return e
+		}
+	}
+	return nil
 }
 
+// litsVis is a dimacs.CnfVis which collects the literals of the clauses.
+type litsVis []z.Lit
+
+func (v *litsVis) Init(nv, nc int) {}
+func (v *litsVis) Add(m z.Lit)     { *v = append(*v, m) }
+func (v *litsVis) Eof()            {}
+
 // TBD: make this stream/buffer the adds instead
 // of loading into client memory.
 func (c *Client) fromXo(x *xo.S) error {
-- 
2.43.0


From 883cd7e8a1587a2a91cc55647b7a2bed50ad5ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 46/78] fix: the string of a unix socket address is as parsed

---
 crisp/addr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/addr.go b/crisp/addr.go
index 0679c5a..11af95b 100644
--- a/crisp/addr.go
+++ b/crisp/addr.go
@@ -30,7 +30,7 @@ func ParseAddr(s string) *Addr {
 // String puts the address back in the format provided
 // to ParseAddr.
 func (a *Addr) String() string {
-	if a.Network == "@" {
+	if a.Network == "unix" {
 		return fmt.Sprintf("@%s", a.NetAddr)
 	}
 	return fmt.Sprintf("%s", a.NetAddr)
-- 
2.43.0


From 7071a200d5d776e3ea8543d7835295dd4d0f5647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 47/78] fix: the crisp version has the major version in the
 upper 8 bits

---
 crisp/version.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crisp/version.go b/crisp/version.go
index 802ce72..5bce8a5 100644
--- a/crisp/version.go
+++ b/crisp/version.go
@@ -8,15 +8,15 @@ import "fmt"
 type Version uint32
 
 const (
-	V = Version(1 << 23)
+	V = Version(1 << 24)
 )
 
 func (v Version) Major() int {
-	return int(v >> 23)
+	return int(v >> 24)
 }
 
 func (v Version) Minor() int {
-	return int(v & 0xfffff)
+	return int(v & 0xffffff)
 }
 
 func (v Version) String() string {
-- 
2.43.0


From 972ede2b12810becc6b02742e9934b30784951ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 48/78] fix: all extension opcodes can be installed

---
 crisp/exts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/exts.go b/crisp/exts.go
index 4420dd6..21b408f 100644
--- a/crisp/exts.go
+++ b/crisp/exts.go
@@ -49,7 +49,7 @@ func NewExts() *Exts {
 // installed) overflows.  This should not exceed NumExtProtos
 func (e *Exts) Install(id uint16, n uint8) (int, error) {
 	m := uint32(n)
-	if e.Off+m >= uint32(MinProto+NumExtProtos) {
+	if e.Off+m > uint32(MinProto+NumExtProtos) {
 		return -1, fmt.Errorf("too many opcodes installed")
 	}
 	res := len(e.D)
-- 
2.43.0


From 7beab25c8f27d640decd51f4a1460d5ab598b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 49/78] fix: Shutdown of a server on a unix socket gives no
 error if all is well

---
 crisp/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crisp/server.go b/crisp/server.go
index 0ad87d3..7628496 100644
--- a/crisp/server.go
+++ b/crisp/server.go
@@ -85,7 +85,8 @@ func (s *Server) Shutdown() error {
 	var e error
 	e = s.listener.Close()
 	if s.addr.Network == "unix" {
-		if rme := os.Remove(s.addr.NetAddr); rme != nil {
+		// closing the listener normally removes it
+		if rme := os.Remove(s.addr.NetAddr); rme != nil && !os.IsNotExist(rme) {
 			if e != nil {
 				e = fmt.Errorf("shutdown errors: %s, %s", e, rme)
 			} else {
-- 
2.43.0


From d7e50e98baff04d375d5a9542397fda19d04e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 50/78] fix: the handlers of a crisp server end when it stops
 serving

---
 crisp/server.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crisp/server.go b/crisp/server.go
index 7628496..3b7b796 100644
--- a/crisp/server.go
+++ b/crisp/server.go
@@ -19,7 +19,6 @@ type Server struct {
 	listener   net.Listener
 	lastSolve  ProtoPoint
 	maxClients int
-	connChan   chan net.Conn
 	trace      bool
 	// The thing which generates the solvers for each connection.
 }
@@ -47,17 +46,18 @@ func NewServer(addr string) (*Server, error) {
 		addr:       *a,
 		listener:   listener,
 		lastSolve:  Unknown,
-		maxClients: runtime.NumCPU(),
-		connChan:   make(chan net.Conn)}
+		maxClients: runtime.NumCPU()}
 	return svr, nil
 }
 
 // Serve runs the server in a loop, accepting
 // connections, generating a solver for each connection and binding them
 func (s *Server) Serve() error {
+	connChan := make(chan net.Conn)
+	defer close(connChan) // ends the handlers
 	for i := 0; i < s.maxClients; i++ {
 		h := newHandler(i+1, &s.trace)
-		go h.serve(s.connChan)
+		go h.serve(connChan)
 	}
 	for {
 		conn, err := s.listener.Accept()
@@ -69,7 +69,7 @@ func (s *Server) Serve() error {
 
 		log.Printf("accepted from %s\n", conn.RemoteAddr().String())
 		// wait for a free handler before accepting again.
-		s.connChan <- conn
+		connChan <- conn
 	}
 }
 
-- 
2.43.0


From c9e071ec759d9ddb2ac42fbe03c98238d83b851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 51/78] fix: Trace of a crisp server does not race with its
 handlers

---
 crisp/handler.go | 29 +++++++++++++++++------------
 crisp/server.go  | 13 +++++++------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 7494959..6cbd84b 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"sync/atomic"
 
 	"github.com/go-air/gini"
 	"github.com/go-air/gini/inter"
@@ -31,22 +32,26 @@ type Handler struct {
 	solveConn inter.Solve
 	proto     ProtoPoint
 	ms        []z.Lit
-	trace     *bool
+	trace     *int32
 	steps     int
 }
 
-func newHandler(i int, tr *bool) *Handler {
+func newHandler(i int, tr *int32) *Handler {
 	h := &Handler{
 		id:    i,
 		proto: Unknown,
 		ms:    make([]z.Lit, 0, 1024),
 		trace: tr}
 	if os.Getenv("TRACE_CRISP") != "" {
-		*tr = true
+		atomic.StoreInt32(tr, 1)
 	}
 	return h
 }
 
+func (h *Handler) tracing() bool {
+	return atomic.LoadInt32(h.trace) != 0
+}
+
 func (h *Handler) serve(cc <-chan net.Conn) {
 	for {
 		conn, ok := <-cc
@@ -54,11 +59,11 @@ func (h *Handler) serve(cc <-chan net.Conn) {
 			// shutdown, channel closed
 			return
 		}
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d start serving %+v.\n", h.id, conn)
 		}
 		h.serveConn(conn)
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d done serving.\n", h.id)
 		}
 	}
@@ -76,7 +81,7 @@ func (h *Handler) serveConn(conn net.Conn) {
 }
 
 func (h *Handler) cleanup() {
-	if *h.trace {
+	if h.tracing() {
 		log.Printf("%d cleanup\n", h.id)
 	}
 	h.conn.Close()
@@ -101,7 +106,7 @@ func (h *Handler) Crisp() error {
 			return h.readError(e)
 		}
 		p := ProtoPoint(u)
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d received %s\n", h.id, p)
 		}
 		if h.proto == Solve && p != Continue && p != End && p != Quit {
@@ -213,7 +218,7 @@ func (h *Handler) handleAdd() error {
 			return h.readError(e)
 		}
 		if m == uint32(End) {
-			if *h.trace {
+			if h.tracing() {
 				log.Printf("%d received %s\n", h.id, End)
 			}
 			return nil
@@ -280,7 +285,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		if e := h.uio.writeflush(uint32(Unsat)); e != nil {
 			return e
 		}
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d sent %s\n", h.id, Unsat)
 		}
 		return nil
@@ -289,7 +294,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		if e := h.uio.writeflush(uint32(Sat)); e != nil {
 			return e
 		}
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d sent %s\n", h.id, Sat)
 		}
 		return nil
@@ -302,7 +307,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		if e := h.uio.writeflush(op); e != nil {
 			return e
 		}
-		if *h.trace {
+		if h.tracing() {
 			log.Printf("%d sent %s\n", h.id, Unknown)
 		}
 		return nil
@@ -456,7 +461,7 @@ func (h *Handler) readError(e error) error {
 }
 
 func (h *Handler) Error(e ProtoErr) error {
-	if *h.trace {
+	if h.tracing() {
 		log.Printf("%d <error> %s\n", h.id, e)
 	}
 	if e := h.uio.writeu32(uint32(Error)); e != nil {
diff --git a/crisp/server.go b/crisp/server.go
index 3b7b796..c804d68 100644
--- a/crisp/server.go
+++ b/crisp/server.go
@@ -9,17 +9,16 @@ import (
 	"net"
 	"os"
 	"runtime"
-	"sync"
+	"sync/atomic"
 )
 
 // Type Server houses state for a server.
 type Server struct {
 	addr       Addr
-	mu         sync.Mutex
 	listener   net.Listener
 	lastSolve  ProtoPoint
 	maxClients int
-	trace      bool
+	trace      int32 // accessed atomically, also by the handlers
 	// The thing which generates the solvers for each connection.
 }
 
@@ -75,9 +74,11 @@ func (s *Server) Serve() error {
 
 // Trace tells the server whether to trace
 func (s *Server) Trace(b bool) {
-	s.mu.Lock()
-	defer s.mu.Unlock()
-	s.trace = b
+	v := int32(0)
+	if b {
+		v = 1
+	}
+	atomic.StoreInt32(&s.trace, v)
 }
 
 // Shutdown stops listening for connections
-- 
2.43.0


From ac16dd962989ad2ef500f5f458a3bfe076c6b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 52/78] fix: the check for too many extension opcodes does not
 wrap around

---
 crisp/exts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/exts.go b/crisp/exts.go
index 21b408f..bc1bc95 100644
--- a/crisp/exts.go
+++ b/crisp/exts.go
@@ -49,7 +49,7 @@ func NewExts() *Exts {
 // installed) overflows.  This should not exceed NumExtProtos
 func (e *Exts) Install(id uint16, n uint8) (int, error) {
 	m := uint32(n)
-	if e.Off+m > uint32(MinProto+NumExtProtos) {
+	if e.Off-uint32(MinProto)+m > uint32(NumExtProtos) {
 		return -1, fmt.Errorf("too many opcodes installed")
 	}
 	res := len(e.D)
-- 
2.43.0


From 8d6f66b6c11aad0bb0278e6245a0d974a51a14ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 53/78] fix: RandColor gives each node and color a variable,
 and ends its clauses

---
 gen/color.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/color.go b/gen/color.go
index 8ddd6ea..407f7da 100644
--- a/gen/color.go
+++ b/gen/color.go
@@ -17,7 +17,7 @@ import (
 func RandColor(dst inter.Adder, n, m, k int) {
 	g := RandGraph(n, m)
 	var mkVar = func(n, c int) z.Var {
-		return z.Var(n*c + c + 1)
+		return z.Var(n*k + c + 1)
 	}
 	for i := range g {
 		for j := 0; j < k; j++ {
@@ -36,8 +36,8 @@ func RandColor(dst inter.Adder, n, m, k int) {
 				b := mkVar(b, c).Neg()
 				dst.Add(a)
 				dst.Add(b)
+				dst.Add(0)
 			}
-			dst.Add(0)
 		}
 	}
 }
-- 
2.43.0


From 7196584be563aada072f57837a933acf5c685cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 54/78] fix: PyTriples constrains the triples of 1..n by their
 elements

---
 gen/pt.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/gen/pt.go b/gen/pt.go
index 3dbf482..270d970 100644
--- a/gen/pt.go
+++ b/gen/pt.go
@@ -38,19 +38,23 @@ func Partition(dst inter.Adder, n, k int) {
 }
 
 // PyTriples adds constraints stating there is no triple (i,j,k)
-// s.t i^2 + j^2 = k^2 in some partition of a k-partition of [1..n]
+// s.t i^2 + j^2 = k^2 in some partition of a k-partition of [1..n].
+// The number i is element i-1 of the partition.
 func PyTriples(dst inter.Adder, n, k int) {
 	Partition(dst, n, k)
-	_, ts := pytriples(n)
-	for _, t := range ts {
-		for p := 0; p < k; p++ {
-			a := PartVar(t.a, p, n)
-			b := PartVar(t.b, p, n)
-			c := PartVar(t.c, p, n)
-			dst.Add(a.Not())
-			dst.Add(b.Not())
-			dst.Add(c.Not())
-			dst.Add(0)
+	sqrs := &squares{make([]int, 0, n)}
+	for b := 2; b <= n; b++ {
+		for a := 1; a < b; a++ {
+			c := sqrs.root(sqrs.get(a) + sqrs.get(b))
+			if c == -1 || c > n {
+				continue
+			}
+			for p := 0; p < k; p++ {
+				dst.Add(PartVar(a-1, p, n).Not())
+				dst.Add(PartVar(b-1, p, n).Not())
+				dst.Add(PartVar(c-1, p, n).Not())
+				dst.Add(0)
+			}
 		}
 	}
 }
-- 
2.43.0


From 956b4d410707a44dca87f231ba9c484bdd1a37c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 55/78] fix: pythagorean triples are not missed where the table
 of squares ends

---
 gen/pt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/pt.go b/gen/pt.go
index 270d970..5da294c 100644
--- a/gen/pt.go
+++ b/gen/pt.go
@@ -95,7 +95,7 @@ func (s *squares) get(i int) int {
 
 func (s *squares) root(v int) int {
 	t := s.d
-	for len(t)*len(t) < v {
+	for len(t)*len(t) <= v {
 		t = append(t, len(t)*len(t))
 	}
 	s.d = t
-- 
2.43.0


From f8200fc262028638297757df9d5fc4d4bcc16229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 56/78] fix: a random solve given up by Try has ended

---
 gen/rands.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/rands.go b/gen/rands.go
index 81802d1..231ae8e 100644
--- a/gen/rands.go
+++ b/gen/rands.go
@@ -181,7 +181,7 @@ func (c *ctl) Try(d time.Duration) int {
 		c.s.unlock()
 		return r
 	case <-a:
-		return 0
+		return c.Stop()
 	}
 }
 
-- 
2.43.0


From 5eabc3a21d9e8ffaddad357eef1c652e1c27ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 57/78] fix: a copied random solver has the result and
 variables of the original

---
 gen/rands.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gen/rands.go b/gen/rands.go
index 231ae8e..14e1d2c 100644
--- a/gen/rands.go
+++ b/gen/rands.go
@@ -88,6 +88,8 @@ func (r *randS) SCopy() inter.S {
 	defer r.rmu.Unlock()
 	return &randS{
 		dur:    r.dur,
+		res:    r.res,
+		mv:     r.mv,
 		rand:   rand.New(rand.NewSource(11)),
 		cancel: make(chan struct{}),
 		pause:  make(chan struct{})}
-- 
2.43.0


From 379096eebd430a35d095773efd58ebeb0b26ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 58/78] fix: system time of a run is not added to its real time

---
 bench/cmp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/cmp.go b/bench/cmp.go
index edc9205..e0502f9 100644
--- a/bench/cmp.go
+++ b/bench/cmp.go
@@ -73,7 +73,7 @@ func Times(r *Run) (real float64, user float64, sys float64) {
 	for _, ir := range r.InstRuns {
 		real += float64(ir.Dur) / sec
 		user += float64(ir.UDur) / sec
-		real += float64(ir.SDur) / sec
+		sys += float64(ir.SDur) / sec
 	}
 	return
 }
-- 
2.43.0


From 905d87e9ac15d01fbbcd3ffab5bb83212df02a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 59/78] fix: selecting runs leaves the suite they are selected
 from alone

---
 bench/suite.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bench/suite.go b/bench/suite.go
index 0f81000..845ae38 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -119,18 +119,16 @@ func (s *Suite) RemoveRun(name string) error {
 func (s *Suite) RunSelect(filt func(*Run) bool) *Suite {
 	res := &Suite{}
 	*res = *s
-	j := 0
-	for _, run := range res.Runs {
+	res.Runs = make([]*Run, 0, len(s.Runs))
+	for _, run := range s.Runs {
 		if !filt(run) {
 			continue
 		}
 		rr := &Run{}
 		*rr = *run
 		rr.Suite = res
-		res.Runs[j] = rr
-		j++
+		res.Runs = append(res.Runs, rr)
 	}
-	res.Runs = res.Runs[:j]
 	return res
 }
 
-- 
2.43.0


From 32f8d549097a09d87d2101c4bcd1246021e20e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 60/78] fix: a suite is opened with the map and hashes it was
 created with

---
 bench/suite.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bench/suite.go b/bench/suite.go
index 845ae38..a975181 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -304,7 +304,10 @@ func (s *Suite) readMap() error {
 		if e != nil && e != io.EOF {
 			return e
 		}
-		s.Map = append(s.Map, strings.TrimSpace(line))
+		if e == io.EOF && line == "" {
+			return nil
+		}
+		s.Map = append(s.Map, strings.TrimSuffix(line, "\n"))
 		if e == io.EOF {
 			return nil
 		}
@@ -323,7 +326,10 @@ func (s *Suite) readHashes() error {
 		if e != nil && e != io.EOF {
 			return e
 		}
-		s.Hashes = append(s.Hashes, line)
+		if e == io.EOF && line == "" {
+			return nil
+		}
+		s.Hashes = append(s.Hashes, strings.TrimSpace(line))
 		if e == io.EOF {
 			return nil
 		}
-- 
2.43.0


From f89f847e482629a470ab1f1190d630936edd5086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 61/78] fix: a suite created has its instances

---
 bench/suite.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bench/suite.go b/bench/suite.go
index a975181..45c0f36 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -188,6 +188,7 @@ func (s *Suite) copyInsts(insts []string) error {
 		}
 		w.Close()
 		r.Close()
+		s.Insts = append(s.Insts, filepath.Base(p))
 	}
 	return nil
 }
@@ -199,6 +200,7 @@ func (s *Suite) linkInsts(insts []string) error {
 		if e := os.Symlink(inst, p); e != nil {
 			return e
 		}
+		s.Insts = append(s.Insts, p)
 	}
 	return nil
 }
-- 
2.43.0


From 0718682d22c3ff76bcf0dc608b9cadb1d0ea211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 62/78] fix: LinkSuite puts links which lead to the origin
 files in the suite

---
 bench/suite.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bench/suite.go b/bench/suite.go
index 45c0f36..ed80f6d 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -197,7 +197,11 @@ func (s *Suite) linkInsts(insts []string) error {
 	iFmt := iFmtFor(len(insts))
 	for i, inst := range insts {
 		p := fmt.Sprintf(iFmt, i, exts(inst))
-		if e := os.Symlink(inst, p); e != nil {
+		origin, e := filepath.Abs(inst)
+		if e != nil {
+			return e
+		}
+		if e := os.Symlink(origin, filepath.Join(s.Root, p)); e != nil {
 			return e
 		}
 		s.Insts = append(s.Insts, p)
-- 
2.43.0


From c175b7a90523b8f243bce975494fea9f2450374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 63/78] fix: instances without a known extension are found in a
 suite

---
 bench/suite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/suite.go b/bench/suite.go
index ed80f6d..8ade866 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -281,7 +281,7 @@ func (s *Suite) readInsts() error {
 			continue
 		}
 		j := -1
-		_, e := fmt.Sscanf(nm, "bench-%d.", &j)
+		_, e := fmt.Sscanf(nm, "bench-%d", &j)
 		if e != nil {
 			log.Printf("unexpected file in benchmark dir %s: %s\n", s.Root, nm)
 			continue
-- 
2.43.0


From 82807d500fce8ff6cf0d67e1de571662eed18496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 64/78] fix: a run is opened with its own environment

---
 bench/run.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/bench/run.go b/bench/run.go
index 351a19b..850e3bc 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -244,14 +244,24 @@ func (r *Run) writeNumCpu() error {
 }
 
 func (r *Run) readEnv() error {
-	env := os.Environ()
-	r.Env = make(map[string]string, len(env))
-	for _, kv := range env {
-		parts := strings.Split(kv, "=")
-		if len(parts) != 2 {
-			return fmt.Errorf("environ %s\n", kv)
+	s, e := p2s(runEnvPath(r.Root))
+	if e != nil {
+		return e
+	}
+	r.Env = make(map[string]string)
+	if s == "" {
+		return nil
+	}
+	last := ""
+	for _, kv := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
+		i := strings.Index(kv, "=")
+		if i == -1 {
+			// the rest of a value of several lines
+			r.Env[last] += "\n" + kv
+			continue
 		}
-		r.Env[parts[0]] = parts[1]
+		last = kv[:i]
+		r.Env[last] = kv[i+1:]
 	}
 	return nil
 }
-- 
2.43.0


From b8adbeec7f60ef3176bd7dc67340c6cad884b0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 65/78] fix: a new run has its name

---
 bench/run.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bench/run.go b/bench/run.go
index 850e3bc..9e498c9 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -97,6 +97,7 @@ func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error)
 	}
 	name = fn
 	run := &Run{
+		Name:        name,
 		Cmd:         cmd,
 		Arch:        runtime.GOARCH,
 		Os:          runtime.GOOS,
-- 
2.43.0


From 7d880d1d995e73af73fac354c28b9d6fd23b7acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 66/78] fix: IsRunDir looks for files which runs have

---
 bench/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/run.go b/bench/run.go
index 9e498c9..45a1be7 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -36,7 +36,7 @@ type Run struct {
 func IsRunDir(root string) bool {
 	for _, p := range []string{
 		root, runCmdPath(root), runDescPath(root), runCommitPath(root),
-		runTimeoutPath(root), runTimesPath(root), runResultsPath(root)} {
+		runTimeoutPath(root), runInstTimeoutPath(root), runStartPath(root)} {
 		_, ste := os.Stat(p)
 		if ste != nil {
 			return false
-- 
2.43.0


From 54fb2d972203c953429f27ecedba1911d5cf23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 67/78] fix: a missing result does not shift the results of
 later instances

---
 bench/run.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bench/run.go b/bench/run.go
index 45a1be7..4c8625f 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -325,7 +325,8 @@ func (r *Run) readInstRuns() error {
 		ir, e := OpenInstRun(r, i)
 		if e != nil {
 			log.Printf("error opening inst run %d in suite %s: %s\n", i, suite.Root, e)
-			continue
+			// nothing is known about i, but others keep their places.
+			ir = &InstRun{Run: r, Inst: i}
 		}
 		r.InstRuns = append(r.InstRuns, ir)
 	}
-- 
2.43.0


From 241a463bbdea07b68def9abc9194272ded0b24b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 68/78] fix: the error of an instance run is read as it was

---
 bench/instrun.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/instrun.go b/bench/instrun.go
index 6c54a67..4b0fb30 100644
--- a/bench/instrun.go
+++ b/bench/instrun.go
@@ -67,7 +67,7 @@ func OpenInstRun(run *Run, inst int) (*InstRun, error) {
 	if e != nil {
 		return nil, e
 	}
-	ir.Error = ie
+	ir.Error = strings.TrimSuffix(ie, "\n")
 	return ir, nil
 }
 
-- 
2.43.0


From 2b345f5adb7cdfd41cbe91f0150c97e65ed6954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 69/78] fix: gini reports inputs of unknown format and goes on

---
 cmd/gini/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/gini/main.go b/cmd/gini/main.go
index 5691bd4..94d2391 100644
--- a/cmd/gini/main.go
+++ b/cmd/gini/main.go
@@ -400,6 +400,10 @@ func main() {
 			continue
 		}
 		format, e := path2Format(fName)
+		if e != nil {
+			log.Println(e)
+			continue
+		}
 		log.Print(fName)
 		_, e = format.runReader(r)
 		if e != nil {
-- 
2.43.0


From 620a82ad42e7b1af7378c2864002077625555b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 70/78] fix: gini -ax counts the cubes solved in each batch

---
 cmd/gini/icnf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/gini/icnf.go b/cmd/gini/icnf.go
index 501a46a..f4ccdf8 100644
--- a/cmd/gini/icnf.go
+++ b/cmd/gini/icnf.go
@@ -136,6 +136,7 @@ func (i *iCnfAx) solveCubes() {
 	ttl := len(i.cubes)
 	req := i.genReq()
 	results := make([]int, len(i.cubes))
+	i.solved = 0
 	for ttl > 0 {
 		resp := i.ax.Ex(req)
 		if resp == nil {
-- 
2.43.0


From c167f4728b6d9305b0e927e0ef681d1a5a543d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 71/78] fix: assumptions given to gini which do not fit a
 literal are an error

---
 cmd/gini/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/gini/main.go b/cmd/gini/main.go
index 94d2391..ce46685 100644
--- a/cmd/gini/main.go
+++ b/cmd/gini/main.go
@@ -10,6 +10,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"net/http"
 	_ "net/http/pprof"
 	"os"
@@ -40,14 +41,17 @@ func (a *assumes) String() string {
 func (a *assumes) Set(val string) error {
 	parts := strings.Split(val, ",")
 	for _, val := range parts {
-		i, e := strconv.Atoi(val)
+		i, e := strconv.ParseInt(val, 10, 32)
 		if e != nil {
 			return e
 		}
 		if i == 0 {
 			return fmt.Errorf("zero assumption")
 		}
-		*a = append(*a, z.Dimacs2Lit(i))
+		if i < -math.MaxInt32 {
+			return fmt.Errorf("assumption out of range: %d", i)
+		}
+		*a = append(*a, z.Dimacs2Lit(int(i)))
 	}
 	return nil
 }
-- 
2.43.0


From e496e6cadd074f6f071bce293a8bb099d44fb2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 72/78] fix: a command which could not be started left no error
 in its instance run

---
 bench/instrun.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bench/instrun.go b/bench/instrun.go
index 4b0fb30..65b6f65 100644
--- a/bench/instrun.go
+++ b/bench/instrun.go
@@ -142,6 +142,9 @@ func (ir *InstRun) do() {
 	ialarm := time.After(ir.dur())
 	if e := cmd.Start(); e != nil {
 		log.Printf("error starting command '%s': %s\n", ir.Run.Cmd, e)
+		ir.Error = e.Error()
+		ir.Out.Close()
+		ir.Err.Close()
 		return
 	}
 	var wg sync.WaitGroup
-- 
2.43.0


From da7df79c0b25f7c70a4cd6a50cb48325287ece73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 73/78] fix: plots of runs which took no time at all panicked

---
 bench/cmp.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bench/cmp.go b/bench/cmp.go
index e0502f9..82e075e 100644
--- a/bench/cmp.go
+++ b/bench/cmp.go
@@ -145,6 +145,9 @@ func (s *Scatter) Utf8(n int) string {
 			maxDur = d
 		}
 	}
+	if maxDur == 0 {
+		maxDur = 1 // nothing took any time: all are at the origin
+	}
 	for i, xd := range s.Xs {
 		yd := s.Ys[i]
 		xr := float64(xd) / float64(maxDur)
@@ -256,6 +259,10 @@ func (c *Cactus) Utf8(N int) string {
 	var idx = func(x, y int) int {
 		return (N-1)*(2*N+1) - (y * (2*N + 1)) + 2*x
 	}
+	maxDur := c.MaxDur
+	if maxDur == 0 {
+		maxDur = 1 // nothing took any time
+	}
 	for ri, runPerm := range c.D {
 		run := c.Runs[ri]
 		tick := byte('0') + byte(ri) // change to unicode later for indexing.
@@ -264,7 +271,7 @@ func (c *Cactus) Utf8(N int) string {
 			jRatio := float64(j) / jDen
 			dj := int(jRatio * float64(N-1))
 			dur := run.InstRuns[p].Dur
-			ratio := float64(dur) / float64(c.MaxDur)
+			ratio := float64(dur) / float64(maxDur)
 			di := int(ratio * float64(N-1))
 			bidx := idx(dj, di)
 			if buf[bidx] == byte(' ') {
-- 
2.43.0


From 714b0c11b11a3c0cd0091a4841032ed710381113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 74/78] fix: bench run ignored its description and commit

---
 bench/run.go       | 9 +++++++++
 cmd/bench/bench.go | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/bench/run.go b/bench/run.go
index 4c8625f..99c4c1f 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -151,6 +151,15 @@ func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error)
 	return run, nil
 }
 
+// Describe records a description of the run and the commit of its command.
+func (r *Run) Describe(desc, commit string) error {
+	r.Desc, r.Commit = desc, commit
+	if e := r.writeDesc(); e != nil {
+		return e
+	}
+	return r.writeCommit()
+}
+
 func (r *Run) Len() int {
 	return len(r.Suite.Insts)
 }
diff --git a/cmd/bench/bench.go b/cmd/bench/bench.go
index 4000e00..a00143d 100644
--- a/cmd/bench/bench.go
+++ b/cmd/bench/bench.go
@@ -93,6 +93,13 @@ func (r *runOptsT) Run(flags *flag.FlagSet) {
 			fmt.Fprintf(os.Stderr, "error initializing run %s for suite %s: %s\n", *r.Name, arg, e)
 			continue
 		}
+		commit := *r.Commit
+		if commit == "" {
+			commit = run.Commit
+		}
+		if e := run.Describe(*r.Desc, commit); e != nil {
+			fmt.Fprintf(os.Stderr, "error describing run %s for suite %s: %s\n", *r.Name, arg, e)
+		}
 		for j := 0; j < run.Len(); j++ {
 			start := time.Now()
 			log.Printf("starting instance %d of %s\n", j, arg)
-- 
2.43.0


From 2e693a7880c8fd95348f122d8552db4f15e7f9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:29 +0000
Subject: [PATCH 75/78] fix: cactus plots of no runs panicked

---
 bench/cmp.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bench/cmp.go b/bench/cmp.go
index 82e075e..6cffb58 100644
--- a/bench/cmp.go
+++ b/bench/cmp.go
@@ -211,7 +211,7 @@ func NewCactus(suite *Suite, rFilt func(*Run) bool, iFilt func(*Suite, int) bool
 	cactus := &Cactus{
 		MaxDur: maxDur,
 		Runs:   runs}
-	M := len(suite.Runs[0].InstRuns)
+	M := len(suite.Insts)
 	for _, run := range runs {
 		js := make([]int, 0, M)
 		for j := 0; j < M; j++ {
@@ -288,12 +288,12 @@ func (c *Cactus) Utf8(N int) string {
 	j := 0
 	legend := make([]string, 0, len(c.D))
 	for _, r := range ticks {
-		s = strings.Replace(s, fmt.Sprintf("%c", byte('0')+byte(j)), string(r), -1)
-		legend = append(legend, fmt.Sprintf("%s\t%s - %s\n", prefix, string(r), c.Runs[j].Name))
-		j++
 		if j >= len(c.D) {
 			break
 		}
+		s = strings.Replace(s, fmt.Sprintf("%c", byte('0')+byte(j)), string(r), -1)
+		legend = append(legend, fmt.Sprintf("%s\t%s - %s\n", prefix, string(r), c.Runs[j].Name))
+		j++
 	}
 	lines := strings.Split(s, "\n")
 	pLines := make([]string, len(lines))
@@ -305,7 +305,11 @@ func (c *Cactus) Utf8(N int) string {
 	s = strings.Join(pLines, "\n")
 
 	delim := strings.Repeat("-", 2*N)
-	sx := fmt.Sprintf("0%s%-5d", strings.Repeat(" ", 2*N+1-5), len(c.D[0]))
+	nInsts := 0
+	if len(c.D) > 0 {
+		nInsts = len(c.D[0])
+	}
+	sx := fmt.Sprintf("0%s%-5d", strings.Repeat(" ", 2*N+1-5), nInsts)
 	return fmt.Sprintf("%s%s\n%s%s\n%s", s, delim, prefix, sx, strings.Join(legend, ""))
 }
 
-- 
2.43.0


From 7a7ace8d67f83b37c07b434f7968096d2ecd89d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 76/78] fix: gini left every input file open

---
 cmd/gini/main.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/cmd/gini/main.go b/cmd/gini/main.go
index ce46685..4bd9956 100644
--- a/cmd/gini/main.go
+++ b/cmd/gini/main.go
@@ -61,9 +61,22 @@ func (a *assumes) Get() interface{} {
 
 var assumptions = assumes([]z.Lit{})
 
-func path2Reader(p string) (io.Reader, error) {
+// input reads the contents of a file, and closes the file.
+type input struct {
+	io.Reader
+	file *os.File
+}
+
+func (i input) Close() error {
+	if i.file == os.Stdin {
+		return nil
+	}
+	return i.file.Close()
+}
+
+func path2Reader(p string) (io.ReadCloser, error) {
 	if p == "-" {
-		return os.Stdin, nil
+		return input{os.Stdin, os.Stdin}, nil
 	}
 	st, stErr := os.Stat(p)
 	if stErr != nil {
@@ -83,14 +96,15 @@ func path2Reader(p string) (io.Reader, error) {
 	if strings.HasSuffix(p, ".gz") {
 		r, e := gzip.NewReader(f)
 		if e != nil {
+			f.Close()
 			return nil, e
 		}
-		return r, nil
+		return input{r, f}, nil
 	}
 	if strings.HasSuffix(p, ".bz2") {
-		return bzip2.NewReader(f), nil
+		return input{bzip2.NewReader(f), f}, nil
 	}
-	return f, nil
+	return input{f, f}, nil
 }
 
 type format int
@@ -405,11 +419,13 @@ func main() {
 		}
 		format, e := path2Format(fName)
 		if e != nil {
+			r.Close()
 			log.Println(e)
 			continue
 		}
 		log.Print(fName)
 		_, e = format.runReader(r)
+		r.Close()
 		if e != nil {
 			log.Printf("error: %s\n", e)
 		}
-- 
2.43.0


From 6d4ab936bf48c90c8ab500b67c8a978e68ce06b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 77/78] fix: monitored solves went on after their time was up

---
 internal/xo/ctl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/xo/ctl.go b/internal/xo/ctl.go
index dc267a2..5a3dc18 100644
--- a/internal/xo/ctl.go
+++ b/internal/xo/ctl.go
@@ -126,6 +126,11 @@ func (c *Ctl) TryStats(timeout, stFreq time.Duration) <-chan StatsResult {
 		for {
 			select {
 			case <-alarm:
+				// the time is up, the solve must not go on.
+				if res := c.Stop(); res != 0 {
+					st2 := *st
+					rc <- StatsResult{Result: res, Stats: &st2}
+				}
 				close(rc)
 				return
 			case res := <-c.cResult:
-- 
2.43.0


From 077be6cf2a0364d2cc8b4b648bc9b37741fccc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 78/78] fix: SetNext made a latch of an input

---
 logic/s.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/s.go b/logic/s.go
index 2669aba..7c93c7f 100644
--- a/logic/s.go
+++ b/logic/s.go
@@ -79,7 +79,7 @@ func (s *S) Next(m z.Lit) z.Lit {
 // s.In or s.And or the subsequent behavior of p is undefined.
 func (s *S) SetNext(m, nxt z.Lit) {
 	n := &s.nodes[m.Var()]
-	if n.a != s.F && n.a != s.T && n.a != z.LitNull {
+	if n.a != s.F && n.a != s.T && n.a != z.LitNull || n.b == z.LitNull {
 		panic("m not a latch")
 	}
 	n.b = nxt
-- 
2.43.0

