package model_test

type Kind string

type Obj int
