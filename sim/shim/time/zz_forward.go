// Code generated by genshim from package time; DO NOT EDIT.

package time

import real "time"

const ANSIC = real.ANSIC
const April = real.April
const August = real.August
var Date = real.Date
const DateOnly = real.DateOnly
const DateTime = real.DateTime
const December = real.December
type Duration = real.Duration
const February = real.February
var FixedZone = real.FixedZone
const Friday = real.Friday
const Hour = real.Hour
const January = real.January
const July = real.July
const June = real.June
const Kitchen = real.Kitchen
const Layout = real.Layout
var LoadLocation = real.LoadLocation
var LoadLocationFromTZData = real.LoadLocationFromTZData
var Local = real.Local
type Location = real.Location
const March = real.March
const May = real.May
const Microsecond = real.Microsecond
const Millisecond = real.Millisecond
const Minute = real.Minute
const Monday = real.Monday
type Month = real.Month
const Nanosecond = real.Nanosecond
const November = real.November
const October = real.October
var Parse = real.Parse
var ParseDuration = real.ParseDuration
type ParseError = real.ParseError
var ParseInLocation = real.ParseInLocation
const RFC1123 = real.RFC1123
const RFC1123Z = real.RFC1123Z
const RFC3339 = real.RFC3339
const RFC3339Nano = real.RFC3339Nano
const RFC822 = real.RFC822
const RFC822Z = real.RFC822Z
const RFC850 = real.RFC850
const RubyDate = real.RubyDate
const Saturday = real.Saturday
const Second = real.Second
const September = real.September
const Stamp = real.Stamp
const StampMicro = real.StampMicro
const StampMilli = real.StampMilli
const StampNano = real.StampNano
const Sunday = real.Sunday
const Thursday = real.Thursday
type Time = real.Time
const TimeOnly = real.TimeOnly
const Tuesday = real.Tuesday
var UTC = real.UTC
var Unix = real.Unix
const UnixDate = real.UnixDate
var UnixMicro = real.UnixMicro
var UnixMilli = real.UnixMilli
const Wednesday = real.Wednesday
type Weekday = real.Weekday
