SPECIFICATION Spec
CONSTANTS Robot = 1
  Cover = FALSE
INVARIANT PendServing
PROPERTIES Fresh Reported Honest NeverInLine Writes Once
VIEW View
CHECK_DEADLOCK FALSE
