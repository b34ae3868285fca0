impl crate::avec::Dummy for Frame { fn dummy() -> Self { Frame { data: PtrUninit::new(core::ptr::null_mut::<u8>()), shape: <u8 as Facet>::SHAPE, field_index_in_parent: None, istate: IState::new(0, FrameMode::Root, FrameFlags::EMPTY) } } }
impl crate::avec::Dummy for IState { fn dummy() -> Self { IState::new(0, FrameMode::Root, FrameFlags::EMPTY) } }
impl crate::avec::Dummy for ValueId { fn dummy() -> Self { ValueId::new(<u8 as Facet>::SHAPE, core::ptr::null()) } }
