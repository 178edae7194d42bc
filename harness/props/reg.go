package props

// Registry lists the harnesses for native replay.
var Registry = map[string]func(){}
