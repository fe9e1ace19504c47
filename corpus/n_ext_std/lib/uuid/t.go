package uuid

type UUID string
