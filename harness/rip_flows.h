// One flow per line: checks/P21.py reads what is connected with what from here.
FLOW("1", S(1) | D(2)),
FLOW("2", S(1) | P(2) | D(3)),
FLOW("3", S(1) | (P(2) | D(3))),
FLOW("4", S(1) | (PA(2) + PB(3)) | D(4)),
FLOW("5", (S(1) + S(2)) | D(3)),
FLOW("6", ((S(1) | P(2)) + (S(3) | P(4))) | D(5)),
FLOW("7", S(1) | ((PA(2) | P(3)) + PB(4)) | (DA(5) + DB(6))),
FLOW("8", S(1) | ((PA(2) | P(3)) + (PB(4) | P(5))) | D(6)),
FLOW("9", (S(1) | P(2)) | (P(3) | D(4))),
FLOW("10", S(1) | (DA(2) + (PB(3) | D(4)))),
FLOW("11", (S(1) + (S(2) | P(3)) + S(4)) | (PA(5) + PB(6)) | (DA(7) + DB(8))),
FLOW("12", (S(1) | D(2)) + (S(3) | D(4))),
