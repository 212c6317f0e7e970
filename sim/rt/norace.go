package rt

type raceToken struct{}

func raceForked(t *Task) {}
func raceBegin()         {}
func raceEnd(t *Task)    {}
func raceDone(t *Task)   {}

func raceChanSend(p interface{}, t *Task) {}
func raceAcquire(p interface{})           {}
func raceRelease(p interface{})           {}
func raceHandoff(t *Task)                 {}
