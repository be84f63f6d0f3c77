SPECIFICATION Spec
CONSTANTS Addrs = {1, 2}
 Contents = {"c", "d"}
 Sels = {"s", "t"}
 Preds = {"p"}
 ClearOnLoad = FALSE
 KeyByValue = TRUE
 CopyEmpty = TRUE
INVARIANT Fresh
CHECK_DEADLOCK FALSE
