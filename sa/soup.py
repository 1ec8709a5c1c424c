"""Grammars of arbitrary token sequences (no claim on values): for totality and for rejection."""
from .texts import *


class Soup(Text):
    """Nodes B (at a boundary), W (just after a word) and, where apostrophes may be dropped, A (after word and apostrophe)."""

    def number_words(self, ordinals=True):
        lx = self.lx
        ws = [w for w in lx.all if not any(c in w for c in APOS)]
        if ordinals:
            ws += list(lx.ordinals.values())
        return ws

    def soup(self, B, W, numbers=True, ordinals=True, other=True, punct=True, digits=True, conn=True, extra=(), seps=True):
        hi = self.hi
        if numbers:
            self.edge(B, W, "any", self.number_words(ordinals), "word", brk=True)
        if other:
            self.other(B, W)
        if extra:
            self.edge(B, W, "extra", extra, "word", brk=True)
        if digits:
            self.digits(B, W)
        if conn:
            self.conn(B, W, True)
        for x in (B, W):
            if punct and not (hi and x == W):
                self.edge(x, W if hi else B, "punct", [p for p in self.punct_words if p not in APOS], "punct", brk=True)
            if seps and not (hi and x == W):
                self.sep(x, W if hi else B)
            if conn and not hi:
                self.conn(x, B, False)
            self.edge(x, B, "ws", WS_FEW, "ws")
        if punct:
            A = self.node()
            if hi:
                # tokens are cut at blanks only: apostrophes on their own, or inside one of a few words
                self.edge(B, A, "apos", APOS + ["''"], "punct", brk=True)
                self.edge(A, B, "ws", WS_FEW, "ws")
                self.edge(B, W, "apos", ["cows'", "'x", "\u0917\u093e\u092f\u2019"], "word", brk=True)
                return [B, W, A]
            self.edge(B, B, "apos", APOS, "punct", brk=True)
            self.edge(W, A, "apos", APOS, "punct", brk=True)
            self.edge(A, A, "apos", APOS, "punct", brk=True)
            self.edge(A, B, "ws", WS_FEW, "ws")
            if seps and not hi:
                self.sep(A, B)
            return [B, W, A]
        return [B, W]
