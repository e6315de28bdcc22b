SPECIFICATION Spec
CONSTANTS MaxClasses = 3 MaxCount = 4 Den = 8
INVARIANTS BothParts SizesAdd Agrees
