// Code generated by genshim from package io; DO NOT EDIT.

package io

import real "io"

type ByteReader = real.ByteReader
type ByteScanner = real.ByteScanner
type ByteWriter = real.ByteWriter
type Closer = real.Closer
var Copy = real.Copy
var CopyBuffer = real.CopyBuffer
var CopyN = real.CopyN
var Discard = real.Discard
var EOF = real.EOF
var ErrClosedPipe = real.ErrClosedPipe
var ErrNoProgress = real.ErrNoProgress
var ErrShortBuffer = real.ErrShortBuffer
var ErrShortWrite = real.ErrShortWrite
var ErrUnexpectedEOF = real.ErrUnexpectedEOF
var LimitReader = real.LimitReader
type LimitedReader = real.LimitedReader
var MultiReader = real.MultiReader
var MultiWriter = real.MultiWriter
var NewOffsetWriter = real.NewOffsetWriter
var NewSectionReader = real.NewSectionReader
var NopCloser = real.NopCloser
type OffsetWriter = real.OffsetWriter
var ReadAll = real.ReadAll
var ReadAtLeast = real.ReadAtLeast
type ReadCloser = real.ReadCloser
var ReadFull = real.ReadFull
type ReadSeekCloser = real.ReadSeekCloser
type ReadSeeker = real.ReadSeeker
type ReadWriteCloser = real.ReadWriteCloser
type ReadWriteSeeker = real.ReadWriteSeeker
type ReadWriter = real.ReadWriter
type Reader = real.Reader
type ReaderAt = real.ReaderAt
type ReaderFrom = real.ReaderFrom
type RuneReader = real.RuneReader
type RuneScanner = real.RuneScanner
type SectionReader = real.SectionReader
const SeekCurrent = real.SeekCurrent
const SeekEnd = real.SeekEnd
const SeekStart = real.SeekStart
type Seeker = real.Seeker
type StringWriter = real.StringWriter
var TeeReader = real.TeeReader
type WriteCloser = real.WriteCloser
type WriteSeeker = real.WriteSeeker
var WriteString = real.WriteString
type Writer = real.Writer
type WriterAt = real.WriterAt
type WriterTo = real.WriterTo
