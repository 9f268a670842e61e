# what the extraction leaves out, and why
@drop impl Item::Debug -- formatting; no property depends on it
@drop impl MaybeItem::Debug -- formatting; no property depends on it
@drop impl Error::PartialEq -- used by tests only; compares errors of the crate's user
@drop impl Error::Display -- formatting
@drop impl Error::Error -- empty marker impl
@drop impl SerializationError::Display -- formatting
@drop NorFlashExt -- the trait becomes the function word_size of the prelude, whose body is the extracted const block
@drop impl ArrayKeyPointers::Default -- calls new
@drop impl CalculatedPageStates::Debug -- formatting
@drop impl ArrayPageStates::Default -- calls new
@drop impl ArrayPagePointers::Default -- calls new
@drop impl ()::Key -- the verifier does not know that () is Clone; both functions return a constant
@drop impl QueueIterator::Debug -- formatting
@drop impl PostcardValue -- the blanket impl hands over to the external crate postcard
