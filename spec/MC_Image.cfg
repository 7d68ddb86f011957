SPECIFICATION Spec
INVARIANTS StackBound OnceEach DepthBound PathBound Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
