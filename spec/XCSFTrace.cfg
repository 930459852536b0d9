CONSTANT Active = {"acc","match","cover","pa","act","upd","del","ea","sub","op","gp","predcalc","predlearn","prog","rl","fit","pure","loss","frame"}
SPECIFICATION Spec
POSTCONDITION Accepted
VIEW View
CHECK_DEADLOCK FALSE
