use crate::*;
use tokio::io::{AsyncBufRead, AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};
include!("x_tokio.inc");
include!("x_tokiow.inc");
