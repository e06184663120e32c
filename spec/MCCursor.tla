------------------------------ MODULE MCCursor ------------------------------
EXTENDS CursorImpl, TLC
Pat(n, k) == [i \in 1..n |-> (i * 37 + k * 101) % 256]
MCWindows == {Pat(n, 1) : n \in {0, 1, 3, 4, 5, 8, 9, 12, 13}}
MCWindowsBig == {Pat(n, 1) : n \in 0..21}
MCWidths == {0, 1, 3, 8, 17, 32, 33, 63, 64}
MCWidthsBig == {0, 1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 31, 32, 33, 40, 48, 56, 57, 62, 63, 64, 65}
MCVbrWidths == {2, 6, 32}
MCVbrWidthsBig == {2, 3, 4, 5, 6, 7, 8, 16, 31, 32}
=============================================================================
