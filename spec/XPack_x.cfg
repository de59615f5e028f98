SPECIFICATION Spec
CONSTANTS Dirs = {1, 2, 3} MaxFiles = 2 Order = "first"
INVARIANT NeverMistaken
CHECK_DEADLOCK FALSE
