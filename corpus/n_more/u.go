package more

type lower int

type words string
