package shared

type Name string

type Count uint16
