----------------------------- MODULE AuthSpace -----------------------------
(* Use of credentials by an HTTP client (RFC 2617, Basic).  A protection    *)
(* space is a scheme, host and port; a realm "" of credentials is any       *)
(* realm.  Paths are sequences of segments, as in CookieStore.              *)
EXTENDS Integers, Sequences, FiniteSets

NONE == 0 - 1

IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

(* a path without its last segment *)
Dir(p) == IF Len(p) = 0 THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1)

(* p is at or below directory d: the segment after d may be empty but must  *)
(* be there                                                                 *)
Below(d, p) == Len(p) > Len(d) /\ IsPrefix(d, p)

(* Credentials: [id, space, realm, dirs].  u: [space, path]                 *)
Preempt(c, u) == c.space = u.space /\ \E d \in c.dirs : Below(d, u.path)

(* challenge: [scheme, realm] *)
Answers(c, u, ch) ==
    c.space = u.space /\ ch.scheme = "basic" /\ c.realm \in {"", ch.realm}

Known(C, i) == \E c \in C : c.id = i
Get(C, i) == CHOOSE c \in C : c.id = i

-----------------------------------------------------------------------------
(* A request: [url, method, hdr, tried].  hdr is the id of the credentials  *)
(* which its Authorization header carries, tried of those it carries in     *)
(* answer to a challenge.                                                   *)

(* the headers the request may be sent with *)
Carries(C, r) ==
    IF r.hdr # NONE THEN {r.hdr}
    ELSE IF \E c \in C : Preempt(c, r.url)
    THEN {c.id : c \in {x \in C : Preempt(x, r.url)}}
    ELSE {NONE}

(* the credentials after the response *)
Learn(C, r, status) ==
    IF r.tried = NONE THEN C
    ELSE IF status = 401 THEN {c \in C : c.id # r.tried}
    ELSE {IF c.id = r.tried
          THEN [c EXCEPT !.dirs = @ \cup {Dir(r.url.path)}] ELSE c : c \in C}

Redirects(r, status, auto) ==
    /\ auto /\ status \in 300..399
    /\ status # 302 \/ r.method \in {"GET", "HEAD"}

(* the request after a redirection *)
Moved(r, u) ==
    [r EXCEPT !.url = u, !.tried = NONE,
              !.hdr = IF u.space = r.url.space THEN @ ELSE NONE]

(* after a challenge: the set of what may follow, empty if that was all *)
Retries(C, r, chs) ==
    {[r EXCEPT !.hdr = c.id, !.tried = c.id] :
        c \in {x \in C : \E i \in 1..Len(chs) : Answers(x, r.url, chs[i])}}
=============================================================================
