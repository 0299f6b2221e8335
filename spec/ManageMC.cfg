SPECIFICATION Spec
CONSTANTS Clients = {"p", "q"}
          MaxDirs = 1
          MaxRestarts = 1
          MaxAnswers = 2
CHECK_DEADLOCK FALSE
INVARIANTS Told SameStory Ends
PROPERTIES SetUpOnce OnlyIntoEmpty Excluded AtMostOne Truthful
