SPECIFICATION Spec
CONSTANTS
  Enf = {"once","fifo","serve","wake","time","exit","ident","shut","oneshot","broken","fwake","cont","policy","wall","wany","cv","mtx","job","prio","pwait","args","intro"}
  TolLow = 2
  TolUp = 300
CHECK_DEADLOCK FALSE
