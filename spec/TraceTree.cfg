SPECIFICATION Spec
CONSTANT Scope = {"C01","C03","C05","C06","C07","C09","C10","C11","C12"}
INVARIANT Conforms
CHECK_DEADLOCK FALSE
