module genshim

go 1.23
