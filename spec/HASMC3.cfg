SPECIFICATION Spec
CONSTANTS Robot = 3
  Cover = FALSE
INVARIANT PendServing
PROPERTIES Fresh Reported Honest NeverInLine Writes Once
VIEW View
CHECK_DEADLOCK FALSE
