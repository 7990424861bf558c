; Byte strings: finite sequences of integers 0..255.
; bsub t i j is the part [i,j) padded with zeros past the end of t (empty when j<=i).
(declare-sort Bytes 0)
(declare-fun bempty () Bytes)
(declare-fun blen (Bytes) Int)
(declare-fun bcat (Bytes Bytes) Bytes)
(declare-fun bsub (Bytes Int Int) Bytes)
(declare-fun bat (Bytes Int) Int)
(declare-fun bzero (Int) Bytes)
(declare-fun byte1 (Int) Bytes)
(declare-fun be64 (Int) Bytes)
(declare-fun dec64 (Bytes) Int)
(declare-fun blt (Bytes Bytes) Bool)
(declare-fun bprefix (Bytes Bytes) Bool) ; bprefix k p: k starts with p
(declare-fun runestr (Int) Bytes)
(declare-fun runeat (Bytes Int) Int)
(declare-fun runelen (Bytes Int) Int)
(define-fun wrap_u8 ((x Int)) Int (mod x 256))
(define-fun wrap_u16 ((x Int)) Int (mod x 65536))
(define-fun wrap_u32 ((x Int)) Int (mod x 4294967296))
(define-fun wrap_u64 ((x Int)) Int (mod x 18446744073709551616))
(define-fun wrap_s8 ((x Int)) Int (- (mod (+ x 128) 256) 128))
(define-fun wrap_s16 ((x Int)) Int (- (mod (+ x 32768) 65536) 32768))
(define-fun wrap_s32 ((x Int)) Int (- (mod (+ x 2147483648) 4294967296) 2147483648))
(define-fun wrap_s64 ((x Int)) Int (- (mod (+ x 9223372036854775808) 18446744073709551616) 9223372036854775808))
(declare-fun box_Int (Int) Int)
(declare-fun unbox_Int (Int) Int)
(declare-fun box_Bool (Bool) Int)
(declare-fun unbox_Bool (Int) Bool)
(declare-fun box_Real (Real) Int)
(declare-fun unbox_Real (Int) Real)
(declare-fun box_Bytes (Bytes) Int)
(declare-fun unbox_Bytes (Int) Bytes)
(axiom box_Int (forall ((x Int)) (! (= (unbox_Int (box_Int x)) x) :pattern ((box_Int x)))))
(axiom box_Bool (forall ((x Bool)) (! (= (unbox_Bool (box_Bool x)) x) :pattern ((box_Bool x)))))
(axiom box_Real (forall ((x Real)) (! (= (unbox_Real (box_Real x)) x) :pattern ((box_Real x)))))
(axiom box_Bytes (forall ((x Bytes)) (! (= (unbox_Bytes (box_Bytes x)) x) :pattern ((box_Bytes x)))))

; floating point equality: symmetric, otherwise uninterpreted (a NaN differs from itself)
(declare-fun feq (Real Real) Bool)
(axiom feq_sym (forall ((a Real) (b Real)) (! (= (feq a b) (feq b a)) :pattern ((feq a b)))))

(axiom blen_range (forall ((t Bytes)) (! (<= 0 (blen t)) :pattern ((blen t)))))
(axiom blen_empty (forall ((t Bytes)) (! (=> (= (blen t) 0) (= t bempty)) :pattern ((blen t)))))
(axiom blen_bempty (= (blen bempty) 0))
(axiom blen_cat (forall ((a Bytes) (b Bytes)) (! (= (blen (bcat a b)) (+ (blen a) (blen b))) :pattern ((bcat a b)))))
(axiom blen_sub (forall ((t Bytes) (i Int) (j Int)) (! (= (blen (bsub t i j)) (ite (<= i j) (- j i) 0)) :pattern ((bsub t i j)))))
(axiom blen_be64 (forall ((n Int)) (! (= (blen (be64 n)) 8) :pattern ((be64 n)))))
(axiom blen_zero (forall ((n Int)) (! (= (blen (bzero n)) (ite (<= 0 n) n 0)) :pattern ((bzero n)))))
(axiom blen_byte1 (forall ((n Int)) (! (= (blen (byte1 n)) 1) :pattern ((byte1 n)))))
(axiom cat_assoc (forall ((a Bytes) (b Bytes) (c Bytes)) (! (= (bcat (bcat a b) c) (bcat a (bcat b c))) :pattern ((bcat (bcat a b) c)))))
(axiom cat_empty_l (forall ((a Bytes) (b Bytes)) (! (=> (= (blen a) 0) (= (bcat a b) b)) :pattern ((bcat a b)))))
(axiom cat_empty_r (forall ((a Bytes) (b Bytes)) (! (=> (= (blen b) 0) (= (bcat a b) a)) :pattern ((bcat a b)))))
(axiom cat_fst (forall ((a Bytes) (b Bytes)) (! (= (bsub (bcat a b) 0 (blen a)) a) :pattern ((bcat a b)))))
(axiom cat_snd (forall ((a Bytes) (b Bytes)) (! (= (bsub (bcat a b) (blen a) (+ (blen a) (blen b))) b) :pattern ((bcat a b)))))
(axiom sub_all (forall ((t Bytes) (i Int) (j Int)) (! (=> (and (= i 0) (= j (blen t))) (= (bsub t i j) t)) :pattern ((bsub t i j)))))
(axiom sub_cat (forall ((a Bytes) (b Bytes) (i Int) (j Int)) (! (and
   (=> (and (<= 0 i) (<= i j) (<= j (blen a))) (= (bsub (bcat a b) i j) (bsub a i j)))
   (=> (and (<= (blen a) i) (<= i j)) (= (bsub (bcat a b) i j) (bsub b (- i (blen a)) (- j (blen a)))))
   (=> (and (<= 0 i) (< i (blen a)) (< (blen a) j)) (= (bsub (bcat a b) i j) (bcat (bsub a i (blen a)) (bsub b 0 (- j (blen a)))))))
  :pattern ((bsub (bcat a b) i j)))))
(axiom sub_sub0 (forall ((t Bytes) (l Int) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j l)) (= (bsub (bsub t 0 l) i j) (bsub t i j))) :pattern ((bsub (bsub t 0 l) i j)))))
(axiom sub_zero (forall ((n Int) (i Int) (j Int)) (! (=> (<= i j) (= (bsub (bzero n) i j) (bzero (- j i)))) :pattern ((bsub (bzero n) i j)))))
(axiom dec_be (forall ((n Int)) (! (=> (and (<= 0 n) (< n 18446744073709551616)) (= (dec64 (be64 n)) n)) :pattern ((be64 n)))))
(axiom be_dec (forall ((t Bytes)) (! (and (<= 0 (dec64 t)) (< (dec64 t) 18446744073709551616) (=> (= (blen t) 8) (= (be64 (dec64 t)) t))) :pattern ((dec64 t)))))
(axiom bat_range (forall ((t Bytes) (i Int)) (! (and (<= 0 (bat t i)) (<= (bat t i) 255)) :pattern ((bat t i)))))
(axiom bat_byte1 (forall ((n Int)) (! (=> (and (<= 0 n) (<= n 255)) (= (bat (byte1 n) 0) n)) :pattern ((byte1 n)))))
(axiom bat_cat (forall ((a Bytes) (b Bytes) (i Int)) (! (=> (<= 0 i) (= (bat (bcat a b) i) (ite (< i (blen a)) (bat a i) (bat b (- i (blen a)))))) :pattern ((bat (bcat a b) i)))))
(axiom bat_sub (forall ((t Bytes) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 i) (<= 0 a) (< i (- b a))) (= (bat (bsub t a b) i) (bat t (+ a i)))) :pattern ((bat (bsub t a b) i)))))
(axiom bat_zero (forall ((n Int) (i Int)) (! (= (bat (bzero n) i) 0) :pattern ((bat (bzero n) i)))))

; lexicographic order
(axiom blt_irr (forall ((a Bytes) (b Bytes)) (! (=> (blt a b) (and (not (= a b)) (not (blt b a)))) :pattern ((blt a b)))))
(axiom blt_total (forall ((a Bytes) (b Bytes)) (! (or (blt a b) (= a b) (blt b a)) :pattern ((blt a b)))))
(axiom blt_trans (forall ((a Bytes) (b Bytes) (c Bytes)) (! (=> (and (blt a b) (blt b c)) (blt a c)) :pattern ((blt a b) (blt b c)))))
(axiom blt_trans2 (forall ((a Bytes) (b Bytes) (c Bytes)) (! (=> (and (not (blt b a)) (not (blt c b))) (not (blt c a))) :pattern ((blt b a) (blt c b)))))
(axiom blt_cat (forall ((p Bytes) (x Bytes) (y Bytes)) (! (= (blt (bcat p x) (bcat p y)) (blt x y)) :pattern ((blt (bcat p x) (bcat p y))))))
(axiom blt_empty (forall ((a Bytes)) (! (and (not (blt a bempty)) (=> (not (= a bempty)) (blt bempty a))) :pattern ((blt a bempty)) :pattern ((blt bempty a)))))
(axiom blt_be (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (<= 0 b) (< a 18446744073709551616) (< b 18446744073709551616)) (= (blt (be64 a) (be64 b)) (< a b))) :pattern ((blt (be64 a) (be64 b))))))
; comparing strings that start with 8 byte numbers
(axiom blt_be_cat (forall ((a Int) (x Bytes) (b Int) (y Bytes)) (! (=> (and (<= 0 a) (<= 0 b) (< a 18446744073709551616) (< b 18446744073709551616))
   (= (blt (bcat (be64 a) x) (bcat (be64 b) y)) (or (< a b) (and (= a b) (blt x y))))) :pattern ((blt (bcat (be64 a) x) (bcat (be64 b) y))))))
(axiom blt_be_cat_l (forall ((a Int) (x Bytes) (b Int)) (! (=> (and (<= 0 a) (<= 0 b) (< a 18446744073709551616) (< b 18446744073709551616))
   (= (blt (bcat (be64 a) x) (be64 b)) (< a b))) :pattern ((blt (bcat (be64 a) x) (be64 b))))))
(axiom blt_be_cat_r (forall ((a Int) (b Int) (y Bytes)) (! (=> (and (<= 0 a) (<= 0 b) (< a 18446744073709551616) (< b 18446744073709551616))
   (= (blt (be64 a) (bcat (be64 b) y)) (or (< a b) (and (= a b) (not (= y bempty)))))) :pattern ((blt (be64 a) (bcat (be64 b) y))))))

; prefixes
(axiom pre_cat (forall ((p Bytes) (x Bytes)) (! (bprefix (bcat p x) p) :pattern ((bcat p x)))))
(axiom pre_refl (forall ((p Bytes)) (! (bprefix p p) :pattern ((bprefix p p)))))
(axiom pre_split (forall ((k Bytes) (p Bytes)) (! (=> (bprefix k p) (and (<= (blen p) (blen k)) (= k (bcat p (bsub k (blen p) (blen k)))) (= (bsub k 0 (blen p)) p))) :pattern ((bprefix k p)))))
(axiom pre_def (forall ((k Bytes) (p Bytes)) (! (=> (and (<= (blen p) (blen k)) (= (bsub k 0 (blen p)) p)) (bprefix k p)) :pattern ((bprefix k p)))))
(lemma pre_empty (forall ((k Bytes)) (! (bprefix k bempty) :pattern ((bprefix k bempty)))))
(axiom pre_order (forall ((k Bytes) (p Bytes)) (! (=> (bprefix k p) (not (blt k p))) :pattern ((bprefix k p)))))
; strings with a common prefix form an interval that starts at the prefix
(axiom pre_convex (forall ((k Bytes) (l Bytes) (p Bytes)) (! (=> (and (not (blt k p)) (not (bprefix k p)) (blt k l)) (not (bprefix l p))) :pattern ((bprefix k p) (bprefix l p) (blt k l)))))

; optional values and keys
(declare-datatypes ((OB 0)) (((none) (some (obv Bytes)))))
(declare-datatypes ((OKey 0)) (((nokey) (akey (okey Bytes)))))
; a region of the key space: every key, keys with a prefix, [lo,hi) or [lo,∞)
(declare-datatypes ((Region 0)) (((AllR) (PrefixR (rpre Bytes)) (IntervalR (rlo Bytes) (rhi Bytes)) (FromR (rfrom Bytes)))))
(define-fun inR ((r Region) (k Bytes)) Bool (ite ((_ is AllR) r) true (ite ((_ is PrefixR) r) (bprefix k (rpre r)) (ite ((_ is IntervalR) r) (and (not (blt k (rlo r))) (blt k (rhi r))) (not (blt k (rfrom r)))))))
(define-fun startR ((r Region)) Bytes (ite ((_ is AllR) r) bempty (ite ((_ is PrefixR) r) (rpre r) (ite ((_ is IntervalR) r) (rlo r) (rfrom r)))))
(define-fun liveR ((v (Array Bytes OB)) (r Region) (k Bytes)) Bool (and ((_ is some) (select v k)) (inR r k)))
; the keys of v in r in increasing order
(declare-fun nkeys ((Array Bytes OB) Region) Int)
(declare-fun nth ((Array Bytes OB) Region Int) Bytes)
(declare-fun rk ((Array Bytes OB) Region Bytes) Int)
(axiom nkeys_nat (forall ((v (Array Bytes OB)) (r Region)) (! (<= 0 (nkeys v r)) :pattern ((nkeys v r)))))
(axiom nth_live (forall ((v (Array Bytes OB)) (r Region) (i Int)) (! (=> (and (<= 0 i) (< i (nkeys v r))) (and (liveR v r (nth v r i)) (= (rk v r (nth v r i)) i))) :pattern ((nth v r i)))))
(axiom rk_nth (forall ((v (Array Bytes OB)) (r Region) (k Bytes)) (! (=> (liveR v r k) (and (<= 0 (rk v r k)) (< (rk v r k) (nkeys v r)) (= (nth v r (rk v r k)) k))) :pattern ((rk v r k)))))
(axiom nth_mono (forall ((v (Array Bytes OB)) (r Region) (i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j (nkeys v r))) (blt (nth v r i) (nth v r j))) :pattern ((nth v r i) (nth v r j)))))
(define-fun nthO ((v (Array Bytes OB)) (r Region) (i Int)) OKey (ite (and (<= 0 i) (< i (nkeys v r))) (akey (nth v r i)) nokey))
; smallest live key >= k, > k
(declare-fun lge ((Array Bytes OB) Region Bytes) OKey)
(declare-fun lgt ((Array Bytes OB) Region Bytes) OKey)
(axiom lge_in (forall ((v (Array Bytes OB)) (r Region) (k Bytes)) (! (=> ((_ is akey) (lge v r k)) (and (liveR v r (okey (lge v r k))) (not (blt (okey (lge v r k)) k)))) :pattern ((lge v r k)))))
(axiom lge_min (forall ((v (Array Bytes OB)) (r Region) (k Bytes) (l Bytes)) (! (=> (and (liveR v r l) (not (blt l k))) (and ((_ is akey) (lge v r k)) (not (blt l (okey (lge v r k)))))) :pattern ((lge v r k) (select v l)))))
(axiom lgt_in (forall ((v (Array Bytes OB)) (r Region) (k Bytes)) (! (=> ((_ is akey) (lgt v r k)) (and (liveR v r (okey (lgt v r k))) (blt k (okey (lgt v r k))))) :pattern ((lgt v r k)))))
(axiom lgt_min (forall ((v (Array Bytes OB)) (r Region) (k Bytes) (l Bytes)) (! (=> (and (liveR v r l) (blt k l)) (and ((_ is akey) (lgt v r k)) (not (blt l (okey (lgt v r k)))))) :pattern ((lgt v r k) (select v l)))))
; linking both views
(axiom lge_start (forall ((v (Array Bytes OB)) (r Region) (k Bytes)) (! (=> (= k (startR r)) (= (lge v r k) (nthO v r 0))) :pattern ((lge v r k)))))
(axiom lgt_nth (forall ((v (Array Bytes OB)) (r Region) (i Int)) (! (=> (and (<= 0 i) (< i (nkeys v r))) (= (lgt v r (nth v r i)) (nthO v r (+ i 1)))) :pattern ((lgt v r (nth v r i))))))
; a walk over all keys, restricted to a region
(lemma lge_all_in (forall ((v (Array Bytes OB)) (r Region) (k Bytes)) (! (=> (and ((_ is akey) (lge v AllR k)) (inR r (okey (lge v AllR k)))) (= (lge v r k) (lge v AllR k))) :pattern ((lge v AllR k) (lge v r k)))))
(lemma lge_all_out (forall ((v (Array Bytes OB)) (r Region) (k Bytes)) (! (=> (and (not (blt k (startR r))) (or ((_ is nokey) (lge v AllR k)) (not (inR r (okey (lge v AllR k)))))) (= (lge v r k) nokey)) :pattern ((lge v AllR k) (lge v r k)))))
(lemma lgt_all_in (forall ((v (Array Bytes OB)) (r Region) (k Bytes)) (! (=> (and ((_ is akey) (lgt v AllR k)) (inR r (okey (lgt v AllR k)))) (= (lgt v r k) (lgt v AllR k))) :pattern ((lgt v AllR k) (lgt v r k)))))
(lemma lgt_all_out (forall ((v (Array Bytes OB)) (r Region) (k Bytes)) (! (=> (and (inR r k) (or ((_ is nokey) (lgt v AllR k)) (not (inR r (okey (lgt v AllR k)))))) (= (lgt v r k) nokey)) :pattern ((lgt v AllR k) (lgt v r k)))))
; a target below the region means its start; one that is behind the keys with the prefix finds nothing
(lemma lge_below (forall ((v (Array Bytes OB)) (r Region) (k Bytes)) (! (=> (blt k (startR r)) (= (lge v r k) (lge v r (startR r)))) :pattern ((lge v r k) (lge v r (startR r))))))
(lemma lge_behind (forall ((v (Array Bytes OB)) (p Bytes) (k Bytes)) (! (=> (and (not (blt k p)) (not (bprefix k p))) (= (lge v (PrefixR p) k) nokey)) :pattern ((lge v (PrefixR p) k)))))

; two regions of the same keys
(declare-fun regeq (Region Region) Bool)
(axiom regeq_refl (forall ((r Region)) (! (regeq r r) :pattern ((regeq r r)))))
(axiom regeq_def (forall ((r Region) (s Region) (v (Array Bytes OB)) (k Bytes)) (! (=> (regeq r s) (= (inR r k) (inR s k))) :pattern ((regeq r s) (select v k)))))
(lemma lge_ext (forall ((v (Array Bytes OB)) (r Region) (s Region) (k Bytes)) (! (=> (regeq r s) (= (lge v r k) (lge v s k))) :pattern ((regeq r s) (lge v r k)) :pattern ((regeq r s) (lge v s k)))))
(lemma lgt_ext (forall ((v (Array Bytes OB)) (r Region) (s Region) (k Bytes)) (! (=> (regeq r s) (= (lgt v r k) (lgt v s k))) :pattern ((regeq r s) (lgt v r k)) :pattern ((regeq r s) (lgt v s k)))))

; batch operations in order, merge operands per key
; (lists, but not datatypes: solvers would unfold them without end)
(declare-sort Ops 0)
(declare-fun onil () Ops)
(declare-fun osnoc (Ops Bytes OB) Ops)
(declare-sort ML 0)
(declare-fun mnil () ML)
(declare-fun msnoc (ML Bytes) ML)
(declare-fun minit (ML) ML)
(declare-fun nomrg () (Array Bytes ML))
(axiom nomrg_def (forall ((k Bytes)) (! (= (select nomrg k) mnil) :pattern ((select nomrg k)))))
(declare-fun mlast (ML) Bytes)
(axiom ml_snoc (forall ((l ML) (x Bytes)) (! (and (= (minit (msnoc l x)) l) (= (mlast (msnoc l x)) x) (not (= (msnoc l x) mnil))) :pattern ((msnoc l x)))))
; lists by position
(declare-fun mlen (ML) Int)
(declare-fun mat (ML Int) Bytes)
(axiom mlen_nat (forall ((l ML)) (! (and (<= 0 (mlen l)) (= (= (mlen l) 0) (= l mnil))) :pattern ((mlen l)))))
(axiom mlen_snoc (forall ((l ML) (x Bytes)) (! (and (= (mlen (msnoc l x)) (+ (mlen l) 1)) (= (mat (msnoc l x) (mlen l)) x)) :pattern ((msnoc l x)))))
(axiom mlen_init (forall ((l ML)) (! (=> (not (= l mnil)) (and (= (mlen (minit l)) (- (mlen l) 1)) (= (mlast l) (mat l (- (mlen l) 1))))) :pattern ((minit l)) :pattern ((mlast l)))))
(axiom mat_snoc (forall ((l ML) (x Bytes) (i Int)) (! (=> (and (<= 0 i) (< i (mlen l))) (= (mat (msnoc l x) i) (mat l i))) :pattern ((mat (msnoc l x) i)))))
(axiom mat_init (forall ((l ML) (i Int)) (! (=> (and (not (= l mnil)) (<= 0 i) (< i (- (mlen l) 1))) (= (mat (minit l) i) (mat l i))) :pattern ((mat (minit l) i)))))
(declare-fun olen (Ops) Int)
(declare-fun okat (Ops Int) Bytes)
(declare-fun ovat (Ops Int) OB)
(declare-fun otake (Ops Int) Ops)
(axiom olen_nat (forall ((o Ops)) (! (and (<= 0 (olen o)) (= (= (olen o) 0) (= o onil))) :pattern ((olen o)))))
(axiom olen_snoc (forall ((o Ops) (k Bytes) (v OB)) (! (and (= (olen (osnoc o k v)) (+ (olen o) 1)) (= (okat (osnoc o k v) (olen o)) k) (= (ovat (osnoc o k v) (olen o)) v)) :pattern ((osnoc o k v)))))
(axiom okat_snoc (forall ((o Ops) (k Bytes) (v OB) (i Int)) (! (=> (and (<= 0 i) (< i (olen o))) (= (okat (osnoc o k v) i) (okat o i))) :pattern ((okat (osnoc o k v) i)))))
(axiom ovat_snoc (forall ((o Ops) (k Bytes) (v OB) (i Int)) (! (=> (and (<= 0 i) (< i (olen o))) (= (ovat (osnoc o k v) i) (ovat o i))) :pattern ((ovat (osnoc o k v) i)))))
; the first operations
(axiom otake_0 (forall ((o Ops)) (! (= (otake o 0) onil) :pattern ((otake o 0)))))
(axiom otake_all (forall ((o Ops) (n Int)) (! (=> (<= (olen o) n) (= (otake o n) o)) :pattern ((otake o n)))))
(axiom otake_next (forall ((o Ops) (n Int)) (! (=> (and (<= 0 n) (< n (olen o))) (= (otake o (+ n 1)) (osnoc (otake o n) (okat o n) (ovat o n)))) :pattern ((otake o (+ n 1))) :pattern ((otake o n) (okat o n)))))
(declare-fun applyOps ((Array Bytes OB) Ops) (Array Bytes OB))
(axiom applyOps_nil (forall ((v (Array Bytes OB))) (! (= (applyOps v onil) v) :pattern ((applyOps v onil)))))
(axiom applyOps_snoc (forall ((v (Array Bytes OB)) (o Ops) (k Bytes) (x OB)) (! (= (applyOps v (osnoc o k x)) (store (applyOps v o) k x)) :pattern ((applyOps v (osnoc o k x))))))
; does some operation name key k
(declare-fun touched (Ops Bytes) Bool)
(axiom touched_nil (forall ((k Bytes)) (! (not (touched onil k)) :pattern ((touched onil k)))))
(axiom touched_snoc (forall ((o Ops) (l Bytes) (x OB) (k Bytes)) (! (= (touched (osnoc o l x) k) (or (= k l) (touched o k))) :pattern ((touched (osnoc o l x) k)))))
; merge operator mo: partial merge and full merge
(declare-fun pmok (Int Bytes Bytes Bytes) Bool)
(declare-fun pm (Int Bytes Bytes Bytes) Bytes)
(declare-fun fmok (Int Bytes OB ML) Bool)
(declare-fun fm (Int Bytes OB ML) Bytes)
(define-fun madd ((mo Int) (k Bytes) (l ML) (x Bytes)) ML (ite (= l mnil) (msnoc mnil x) (ite (pmok mo k (mlast l) x) (msnoc (minit l) (pm mo k (mlast l) x)) (msnoc l x))))

; query answers: the parts from d on of the first n keys of v in r
(declare-fun inN ((Array Bytes OB) Region Int Int Bytes) Bool)
(declare-fun inN! ((Array Bytes OB) Region Int Int Bytes) Bool)
(axiom inN_fuel (forall ((v (Array Bytes OB)) (r Region) (d Int) (n Int) (s Bytes)) (! (= (inN v r d n s) (inN! v r d n s)) :pattern ((inN v r d n s)))))
(axiom inN_def (forall ((v (Array Bytes OB)) (r Region) (d Int) (n Int) (s Bytes)) (! (= (inN v r d n s) (ite (<= n 0) false (or (inN! v r d (- n 1) s) (= s (bsub (nth v r (- n 1)) d (blen (nth v r (- n 1)))))))) :pattern ((inN v r d n s)))))
; region of the entries of one cell: kind 0 flat (prefix, cell), 1 point (range of leaf cells), 2 time (cell and time window)
(declare-fun s2rmin (Int) Int)
(declare-fun s2rmax (Int) Int)
(declare-fun regOf (Int Bytes Int Int Int) Region)
(axiom regOf_def (forall ((kind Int) (p Bytes) (a Int) (b Int) (c Int)) (! (= (regOf kind p a b c) (ite (= kind 0) (PrefixR (bcat p (be64 c))) (ite (= kind 1) (IntervalR (bcat p (be64 (s2rmin c))) (bcat p (be64 (+ (s2rmax c) 1)))) (IntervalR (bcat p (bcat (be64 c) (be64 a))) (bcat p (bcat (be64 c) (be64 b))))))) :pattern ((regOf kind p a b c)))))
; s is answered for one of the first n cells
(declare-fun inAny (Int Bytes Int Int (Array Bytes OB) Int (Array Int Int) Int Bytes) Bool)
(declare-fun inAny! (Int Bytes Int Int (Array Bytes OB) Int (Array Int Int) Int Bytes) Bool)
(axiom inAny_fuel (forall ((kind Int) (p Bytes) (a Int) (b Int) (v (Array Bytes OB)) (d Int) (cs (Array Int Int)) (n Int) (s Bytes)) (! (= (inAny kind p a b v d cs n s) (inAny! kind p a b v d cs n s)) :pattern ((inAny kind p a b v d cs n s)))))
(axiom inAny_def (forall ((kind Int) (p Bytes) (a Int) (b Int) (v (Array Bytes OB)) (d Int) (cs (Array Int Int)) (n Int) (s Bytes)) (! (= (inAny kind p a b v d cs n s) (ite (<= n 0) false (or (inAny! kind p a b v d cs (- n 1) s) (inN v (regOf kind p a b (select cs (- n 1))) d (nkeys v (regOf kind p a b (select cs (- n 1)))) s)))) :pattern ((inAny kind p a b v d cs n s)))))
; the operations of indexing an object: prefix, cell, suffix
(declare-fun geoOps (Bytes (Array Int Int) Int Bytes) Ops)
(declare-fun geoOps! (Bytes (Array Int Int) Int Bytes) Ops)
(axiom geoOps_fuel (forall ((p Bytes) (cs (Array Int Int)) (n Int) (x Bytes)) (! (= (geoOps p cs n x) (geoOps! p cs n x)) :pattern ((geoOps p cs n x)))))
(axiom geoOps_def (forall ((p Bytes) (cs (Array Int Int)) (n Int) (x Bytes)) (! (= (geoOps p cs n x) (ite (<= n 0) onil (osnoc (geoOps! p cs (- n 1) x) (bcat p (bcat (be64 (select cs (- n 1))) x)) (some bempty)))) :pattern ((geoOps p cs n x)))))
; filtered answers: S is the set of accepted cells, the cell is the 8 bytes before d
(define-fun accK ((s (Array Int Bool)) (d Int) (k Bytes)) Bool (select s (dec64 (bsub k (- d 8) d))))
(declare-fun fcnt ((Array Bytes OB) Region (Array Int Bool) Int Int) Int)
(declare-fun fcnt! ((Array Bytes OB) Region (Array Int Bool) Int Int) Int)
(axiom fcnt_fuel (forall ((v (Array Bytes OB)) (r Region) (s (Array Int Bool)) (d Int) (n Int)) (! (= (fcnt v r s d n) (fcnt! v r s d n)) :pattern ((fcnt v r s d n)))))
(axiom fcnt_def (forall ((v (Array Bytes OB)) (r Region) (s (Array Int Bool)) (d Int) (n Int)) (! (= (fcnt v r s d n) (ite (<= n 0) 0 (+ (fcnt! v r s d (- n 1)) (ite (accK s d (nth v r (- n 1))) 1 0)))) :pattern ((fcnt v r s d n)))))
(declare-fun tcnt (Bytes (Array Bytes OB) (Array Int Bool) Int (Array Int Int) Int) Int)
(declare-fun tcnt! (Bytes (Array Bytes OB) (Array Int Bool) Int (Array Int Int) Int) Int)
(axiom tcnt_fuel (forall ((p Bytes) (v (Array Bytes OB)) (s (Array Int Bool)) (d Int) (cs (Array Int Int)) (n Int)) (! (= (tcnt p v s d cs n) (tcnt! p v s d cs n)) :pattern ((tcnt p v s d cs n)))))
(axiom tcnt_def (forall ((p Bytes) (v (Array Bytes OB)) (s (Array Int Bool)) (d Int) (cs (Array Int Int)) (n Int)) (! (= (tcnt p v s d cs n) (ite (<= n 0) 0 (+ (tcnt! p v s d cs (- n 1)) (fcnt v (regOf 1 p 0 0 (select cs (- n 1))) s d (nkeys v (regOf 1 p 0 0 (select cs (- n 1)))))))) :pattern ((tcnt p v s d cs n)))))
; the accepted ids listed in order of cell, then key; the element for the i-th key of the j-th cell stands after the tcnt(j) of the cells before
; and the fcnt(i) of the keys before (positions are distinct, so accAt is well defined: lemma accAt_def; tcnt grows: lemma tcnt_mono)
(declare-fun accAt (Bytes (Array Bytes OB) (Array Int Bool) Int (Array Int Int) Int) Bytes)
(axiom accAt_def (forall ((p Bytes) (v (Array Bytes OB)) (s (Array Int Bool)) (d Int) (cs (Array Int Int)) (j Int) (i Int)) (! (=> (and (<= 0 j) (<= 0 i) (< i (nkeys v (regOf 1 p 0 0 (select cs j)))) (accK s d (nth v (regOf 1 p 0 0 (select cs j)) i))) (= (accAt p v s d cs (+ (tcnt p v s d cs j) (fcnt v (regOf 1 p 0 0 (select cs j)) s d i))) (bsub (nth v (regOf 1 p 0 0 (select cs j)) i) d (blen (nth v (regOf 1 p 0 0 (select cs j)) i))))) :pattern ((tcnt p v s d cs j) (nth v (regOf 1 p 0 0 (select cs j)) i)))))
(declare-fun accPos (Bytes (Array Bytes OB) (Array Int Bool) Int (Array Int Int) Int Int) Int)
(axiom tcnt_mono (forall ((p Bytes) (v (Array Bytes OB)) (s (Array Int Bool)) (d Int) (cs (Array Int Int)) (n Int) (j Int) (i Int)) (! (=> (and (<= 0 j) (< j n) (<= 0 i) (< i (nkeys v (regOf 1 p 0 0 (select cs j)))) (accK s d (nth v (regOf 1 p 0 0 (select cs j)) i))) (and (= (accPos p v s d cs j i) (+ (tcnt p v s d cs j) (fcnt v (regOf 1 p 0 0 (select cs j)) s d i))) (<= 0 (accPos p v s d cs j i)) (< (accPos p v s d cs j i) (tcnt p v s d cs n)) (= (accAt p v s d cs (accPos p v s d cs j i)) (bsub (nth v (regOf 1 p 0 0 (select cs j)) i) d (blen (nth v (regOf 1 p 0 0 (select cs j)) i)))))) :pattern ((tcnt p v s d cs n) (nth v (regOf 1 p 0 0 (select cs j)) i)))))

; occurrences of c among the first n cells; cells dropped and kept by the difference of two lists
(declare-fun ccnt ((Array Int Int) Int Int) Int)
(declare-fun ccnt! ((Array Int Int) Int Int) Int)
(axiom ccnt_fuel (forall ((a (Array Int Int)) (n Int) (c Int)) (! (= (ccnt a n c) (ccnt! a n c)) :pattern ((ccnt a n c)))))
(axiom ccnt_def (forall ((a (Array Int Int)) (n Int) (c Int)) (! (= (ccnt a n c) (ite (<= n 0) 0 (+ (ccnt! a (- n 1) c) (ite (= (select a (- n 1)) c) 1 0)))) :pattern ((ccnt a n c)))))
(induction ccnt_bound n (forall ((a (Array Int Int)) (n Int) (c Int)) (! (and (<= 0 (ccnt a n c)) (=> (<= 0 n) (<= (ccnt a n c) n))) :pattern ((ccnt a n c)))))
(declare-fun dropped ((Array Int Int) (Array Int Int) Int Int) Bool)
(axiom dropped_def (forall ((a (Array Int Int)) (b (Array Int Int)) (m Int) (i Int)) (! (= (dropped a b m i) (< (ccnt a i (select a i)) (ccnt b m (select a i)))) :pattern ((dropped a b m i)))))
(declare-fun kept ((Array Int Int) (Array Int Int) Int Int) Int)
(declare-fun kept! ((Array Int Int) (Array Int Int) Int Int) Int)
(axiom kept_fuel (forall ((a (Array Int Int)) (b (Array Int Int)) (m Int) (n Int)) (! (= (kept a b m n) (kept! a b m n)) :pattern ((kept a b m n)))))
(axiom kept_def (forall ((a (Array Int Int)) (b (Array Int Int)) (m Int) (n Int)) (! (= (kept a b m n) (ite (<= n 0) 0 (+ (kept! a b m (- n 1)) (ite (dropped a b m (- n 1)) 0 1)))) :pattern ((kept a b m n)))))
(induction kept_nat n (forall ((a (Array Int Int)) (b (Array Int Int)) (m Int) (n Int)) (! (<= 0 (kept a b m n)) :pattern ((kept a b m n)))))
(induction kept_mono n (forall ((a (Array Int Int)) (b (Array Int Int)) (m Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (not (dropped a b m i))) (< (kept a b m i) (kept a b m n))) :pattern ((kept a b m n) (dropped a b m i)))))

; text: decoding UTF-8 (only ASCII is told apart) and writing one rune
(axiom rune_ascii (forall ((t Bytes) (i Int)) (! (ite (< (bat t i) 128) (and (= (runeat t i) (bat t i)) (= (runelen t i) 1)) (<= 128 (runeat t i))) :pattern ((runeat t i)))))
(axiom runestr_def (forall ((r Int)) (! (ite (and (<= 0 r) (< r 128)) (= (runestr r) (byte1 r)) (and (<= 2 (blen (runestr r))) (<= 128 (bat (runestr r) 0)))) :pattern ((runestr r)))))
; the cell reached from the cell of a face digit by the child digits 2..n-1 of a text
(declare-fun facecell (Int) Int)
(declare-fun childcell (Int Int) Int)
(declare-fun pathcell (Bytes Int) Int)
(declare-fun pathcell! (Bytes Int) Int)
(axiom pathcell_fuel (forall ((t Bytes) (n Int)) (! (= (pathcell t n) (pathcell! t n)) :pattern ((pathcell t n)))))
(axiom pathcell_def (forall ((t Bytes) (n Int)) (! (= (pathcell t n) (ite (<= n 2) (facecell (- (bat t 0) 48)) (childcell (pathcell! t (- n 1)) (- (bat t (- n 1)) 48)))) :pattern ((pathcell t n)))))
; start of the k-th position in a list with s numbers per position
(declare-fun strided (Int Int) Int)
(declare-fun strided! (Int Int) Int)
(axiom strided_fuel (forall ((s Int) (k Int)) (! (= (strided s k) (strided! s k)) :pattern ((strided s k)))))
(axiom strided_def (forall ((s Int) (k Int)) (! (= (strided s k) (ite (<= k 0) 0 (+ (strided! s (- k 1)) s))) :pattern ((strided s k)))))
(induction strided_nat k (forall ((s Int) (k Int)) (! (=> (<= 0 s) (<= 0 (strided s k))) :pattern ((strided s k)))))
