SPECIFICATION Spec
CONSTANTS Dirs = {1, 2, 3} MaxFiles = 2 Order = "last"
INVARIANT NeverMistaken
PROPERTY Ends
CHECK_DEADLOCK FALSE
