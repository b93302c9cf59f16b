SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
 F8 <- Mini8b
 SCE = 6
 Ds = {0,1,7,8,9,15,16,17,31,32,33,48,50,63,64,65,100,111,112,127,128,129,160,191,239,240,255}
