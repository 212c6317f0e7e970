module simrewrite

go 1.23
