//@raw
//@props C06
// ================================================================ src/errors.rs (C06)
//@item src/errors.rs | enum LoadJointsError
//@pre #[allow(inconsistent_fields)]
enum LoadJointsError {
    Io(⟦~ io::Error ~> IoErr ⟧),
    MissingRoot,
    MissingJointName {
        line: usize,
    },
    UnexpectedKeyword {
        line: usize,
    },
    UnexpectedChannelsSection {
        line: usize,
    },
    ParseNumChannelsError {
        error: Option<⟦~ LexicalError ~> LexErr ⟧>,
        line: usize,
    },
    ParseChannelError {
        error: ParseChannelError,
        line: usize,
    },
    UnexpectedOffsetSection {
        line: usize,
    },
    ParseOffsetError {
        parse_float_error: ⟦~ LexicalError ~> LexErr ⟧,
        axis: Axis,
        line: usize,
    },
    MissingOffsetAxis {
        axis: Axis,
        line: usize,
    },
}
//@item src/errors.rs | enum LoadMotionError
//@pre #[allow(inconsistent_fields)]
enum LoadMotionError {
    Io(⟦~ io::Error ~> IoErr ⟧),
    MissingMotionSection {
        line: usize,
    },
    MissingNumFrames {
        parse_error: Option<⟦~ LexicalError ~> LexErr ⟧>,
        line: usize,
    },
    MissingFrameTime {
        parse_error: Option<⟦~ LexicalError ~> LexErr ⟧>,
        line: usize,
    },
    ParseMotionSection {
        parse_error: ⟦~ LexicalError ~> LexErr ⟧,
        channel_index: usize,
        line: usize,
    },
    MotionCountMismatch {
        actual_total_motion_values: usize,
        expected_total_motion_values: usize,
        expected_num_frames: usize,
        expected_num_clips: usize,
    },
}
//@item src/errors.rs | enum LoadErrorKind
//@pre #[allow(inconsistent_fields)]
enum LoadErrorKind {
    Joints(LoadJointsError),
    Motion(LoadMotionError),
}
//@item src/errors.rs | struct LoadError
//@pre #[allow(inconsistent_fields)]
struct LoadError {
    kind: LoadErrorKind,
}
//@raw
//@props C06
impl LoadJointsError {
    // the line where the error is; none when it is about the file as a whole or about the reader
    spec fn s_line(self) -> Option<usize> {
        match self {
            LoadJointsError::Io(_) => None,
            LoadJointsError::MissingRoot => None,
            LoadJointsError::MissingJointName { line } => Some(line),
            LoadJointsError::UnexpectedKeyword { line } => Some(line),
            LoadJointsError::UnexpectedChannelsSection { line } => Some(line),
            LoadJointsError::ParseNumChannelsError { line, .. } => Some(line),
            LoadJointsError::ParseChannelError { line, .. } => Some(line),
            LoadJointsError::UnexpectedOffsetSection { line } => Some(line),
            LoadJointsError::ParseOffsetError { line, .. } => Some(line),
            LoadJointsError::MissingOffsetAxis { line, .. } => Some(line),
        }
    }
}
impl LoadMotionError {
    spec fn s_line(self) -> Option<usize> {
        match self {
            LoadMotionError::Io(_) => None,
            LoadMotionError::MissingMotionSection { line } => Some(line),
            LoadMotionError::MissingNumFrames { line, .. } => Some(line),
            LoadMotionError::MissingFrameTime { line, .. } => Some(line),
            LoadMotionError::ParseMotionSection { line, .. } => Some(line),
            LoadMotionError::MotionCountMismatch { .. } => None,
        }
    }
}
impl LoadErrorKind {
    spec fn s_line(self) -> Option<usize> { match self { LoadErrorKind::Joints(e) => e.s_line(), LoadErrorKind::Motion(e) => e.s_line() } }
}
// core: From gives Into
impl Into<LoadErrorKind> for LoadJointsError {
    spec fn into_ok(self, r: LoadErrorKind) -> bool { r == LoadErrorKind::Joints(self) }
    fn vx_into(self) -> (r: LoadErrorKind) { LoadErrorKind::from_joints(self) }
}
impl Into<LoadErrorKind> for LoadMotionError {
    spec fn into_ok(self, r: LoadErrorKind) -> bool { r == LoadErrorKind::Motion(self) }
    fn vx_into(self) -> (r: LoadErrorKind) { LoadErrorKind::from_motion(self) }
}
//@item src/errors.rs | impl LoadError | fn line
//@props C06
//@emit impl LoadError
fn line(&self) -> ⟦~ Option<usize> ~> (r: Option<usize>) ensures r == self.kind.s_line() ⟧ {
    match self.kind {
        LoadErrorKind::Joints(ref e) => e.line(),
        LoadErrorKind::Motion(ref e) => e.line(),
    }
}
//@item src/errors.rs | impl LoadError | fn kind
//@props C06
//@emit impl LoadError
fn kind(&self) -> ⟦~ &LoadErrorKind ~> (r: &LoadErrorKind) ensures *r == self.kind ⟧ {
    &self.kind
}
//@item src/errors.rs | impl LoadError | fn into_kind
//@props C06
//@emit impl LoadError
fn into_kind(self) -> ⟦~ LoadErrorKind ~> (r: LoadErrorKind) ensures r == self.kind ⟧ {
    self.kind
}
//@item src/errors.rs | impl<K: Into<LoadErrorKind>> From<K> for LoadError | fn from
//@props C06
//@emit impl LoadError
fn from⟦ <K: Into<LoadErrorKind>> ⟧(kind: K) -> ⟦~ Self ~> (r: Self) ensures kind.into_ok(r.kind) ⟧ {
    LoadError { kind: kind.⟦~ into ~> vx_into ⟧() }
}
//@item src/errors.rs | impl From<LoadJointsError> for LoadErrorKind | fn from
//@name From<LoadJointsError> for LoadErrorKind :: from
//@props C06
//@emit impl LoadErrorKind
fn ⟦~ from ~> from_joints ⟧(e: LoadJointsError) -> ⟦~ Self ~> (r: Self) ensures r == LoadErrorKind::Joints(e) ⟧ {
    LoadErrorKind::Joints(e)
}
//@item src/errors.rs | impl From<LoadMotionError> for LoadErrorKind | fn from
//@name From<LoadMotionError> for LoadErrorKind :: from
//@props C06
//@emit impl LoadErrorKind
fn ⟦~ from ~> from_motion ⟧(e: LoadMotionError) -> ⟦~ Self ~> (r: Self) ensures r == LoadErrorKind::Motion(e) ⟧ {
    LoadErrorKind::Motion(e)
}
//@item src/errors.rs | impl LoadJointsError | fn line
//@props C06
//@emit impl LoadJointsError
fn line(&self) -> ⟦~ Option<usize> ~> (r: Option<usize>) ensures r == self.s_line() ⟧ {
    match *self {
        LoadJointsError::MissingJointName { line }
        | LoadJointsError::UnexpectedKeyword { line }
        | LoadJointsError::UnexpectedChannelsSection { line }
        | LoadJointsError::ParseNumChannelsError { line, .. }
        | LoadJointsError::ParseChannelError { line, .. }
        | LoadJointsError::UnexpectedOffsetSection { line }
        | LoadJointsError::ParseOffsetError { line, .. }
        | LoadJointsError::MissingOffsetAxis { line, .. } => Some(line),
        _ => None,
    }
}
//@item src/errors.rs | impl LoadMotionError | fn line
//@props C06
//@emit impl LoadMotionError
fn line(&self) -> ⟦~ Option<usize> ~> (r: Option<usize>) ensures r == self.s_line() ⟧ {
    match *self {
        LoadMotionError::MissingMotionSection { line }
        | LoadMotionError::MissingNumFrames { line, .. }
        | LoadMotionError::MissingFrameTime { line, .. }
        | LoadMotionError::ParseMotionSection { line, .. } => Some(line),
        _ => None,
    }
}
//@item src/errors.rs | impl From<io::Error> for LoadJointsError | fn from
//@name From<io::Error> for LoadJointsError :: from
//@props C01 C06
//@emit impl LoadJointsError
fn from(e: ⟦~ io::Error ~> IoErr ⟧) -> ⟦~ Self ~> (r: Self) ensures r == LoadJointsError::Io(e) ⟧ {
    LoadJointsError::Io(e)
}
//@item src/errors.rs | impl From<io::Error> for LoadMotionError | fn from
//@name From<io::Error> for LoadMotionError :: from
//@props C01 C06
//@emit impl LoadMotionError
fn from(e: ⟦~ io::Error ~> IoErr ⟧) -> ⟦~ Self ~> (r: Self) ensures r == LoadMotionError::Io(e) ⟧ {
    LoadMotionError::Io(e)
}
