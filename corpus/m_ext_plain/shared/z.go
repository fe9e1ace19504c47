package shared

type Unused struct{ X int }
