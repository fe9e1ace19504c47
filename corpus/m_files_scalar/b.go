package files

type Str string
