package inner

type Name string
