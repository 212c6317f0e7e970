// Code generated by genshim from package context; DO NOT EDIT.

package context

import real "context"

var Background = real.Background
type CancelCauseFunc = real.CancelCauseFunc
var Canceled = real.Canceled
var DeadlineExceeded = real.DeadlineExceeded
var TODO = real.TODO
var WithValue = real.WithValue
