// generated by tools/gen_parquet_table.py
use crate::types::{ops_custom, Ops};
use compact_thrift_parquet::format as p;

pub fn table() -> Vec<Ops> {
    vec![
        ops_custom::<p::Type>("Type"),
        ops_custom::<p::ConvertedType>("ConvertedType"),
        ops_custom::<p::FieldRepetitionType>("FieldRepetitionType"),
        ops_custom::<p::SizeStatistics>("SizeStatistics"),
        ops_custom::<p::BoundingBox>("BoundingBox"),
        ops_custom::<p::GeospatialStatistics>("GeospatialStatistics"),
        ops_custom::<p::Statistics>("Statistics"),
        ops_custom::<p::StringType>("StringType"),
        ops_custom::<p::UUIDType>("UUIDType"),
        ops_custom::<p::MapType>("MapType"),
        ops_custom::<p::ListType>("ListType"),
        ops_custom::<p::EnumType>("EnumType"),
        ops_custom::<p::DateType>("DateType"),
        ops_custom::<p::Float16Type>("Float16Type"),
        ops_custom::<p::NullType>("NullType"),
        ops_custom::<p::DecimalType>("DecimalType"),
        ops_custom::<p::MilliSeconds>("MilliSeconds"),
        ops_custom::<p::MicroSeconds>("MicroSeconds"),
        ops_custom::<p::NanoSeconds>("NanoSeconds"),
        ops_custom::<p::TimeUnit>("TimeUnit"),
        ops_custom::<p::TimestampType>("TimestampType"),
        ops_custom::<p::TimeType>("TimeType"),
        ops_custom::<p::IntType>("IntType"),
        ops_custom::<p::JsonType>("JsonType"),
        ops_custom::<p::BsonType>("BsonType"),
        ops_custom::<p::VariantType>("VariantType"),
        ops_custom::<p::EdgeInterpolationAlgorithm>("EdgeInterpolationAlgorithm"),
        ops_custom::<p::GeometryType>("GeometryType"),
        ops_custom::<p::GeographyType>("GeographyType"),
        ops_custom::<p::LogicalType>("LogicalType"),
        ops_custom::<p::SchemaElement>("SchemaElement"),
        ops_custom::<p::Encoding>("Encoding"),
        ops_custom::<p::CompressionCodec>("CompressionCodec"),
        ops_custom::<p::PageType>("PageType"),
        ops_custom::<p::BoundaryOrder>("BoundaryOrder"),
        ops_custom::<p::DataPageHeader>("DataPageHeader"),
        ops_custom::<p::IndexPageHeader>("IndexPageHeader"),
        ops_custom::<p::DictionaryPageHeader>("DictionaryPageHeader"),
        ops_custom::<p::DataPageHeaderV2>("DataPageHeaderV2"),
        ops_custom::<p::SplitBlockAlgorithm>("SplitBlockAlgorithm"),
        ops_custom::<p::BloomFilterAlgorithm>("BloomFilterAlgorithm"),
        ops_custom::<p::XxHash>("XxHash"),
        ops_custom::<p::BloomFilterHash>("BloomFilterHash"),
        ops_custom::<p::Uncompressed>("Uncompressed"),
        ops_custom::<p::BloomFilterCompression>("BloomFilterCompression"),
        ops_custom::<p::BloomFilterHeader>("BloomFilterHeader"),
        ops_custom::<p::PageHeader>("PageHeader"),
        ops_custom::<p::KeyValue>("KeyValue"),
        ops_custom::<p::SortingColumn>("SortingColumn"),
        ops_custom::<p::PageEncodingStats>("PageEncodingStats"),
        ops_custom::<p::ColumnMetaData>("ColumnMetaData"),
        ops_custom::<p::EncryptionWithFooterKey>("EncryptionWithFooterKey"),
        ops_custom::<p::EncryptionWithColumnKey>("EncryptionWithColumnKey"),
        ops_custom::<p::ColumnCryptoMetaData>("ColumnCryptoMetaData"),
        ops_custom::<p::ColumnChunk>("ColumnChunk"),
        ops_custom::<p::RowGroup>("RowGroup"),
        ops_custom::<p::TypeDefinedOrder>("TypeDefinedOrder"),
        ops_custom::<p::ColumnOrder>("ColumnOrder"),
        ops_custom::<p::PageLocation>("PageLocation"),
        ops_custom::<p::OffsetIndex>("OffsetIndex"),
        ops_custom::<p::ColumnIndex>("ColumnIndex"),
        ops_custom::<p::AesGcmV1>("AesGcmV1"),
        ops_custom::<p::AesGcmCtrV1>("AesGcmCtrV1"),
        ops_custom::<p::EncryptionAlgorithm>("EncryptionAlgorithm"),
        ops_custom::<p::FileMetaData>("FileMetaData"),
        ops_custom::<p::FileCryptoMetaData>("FileCryptoMetaData"),
    ]
}

/// (enum, constant name, number in the library)
pub fn constants() -> Vec<(&'static str, &'static str, i32)> {
    vec![
        ("Type", "BOOLEAN", p::Type::BOOLEAN.0),
        ("Type", "INT32", p::Type::INT32.0),
        ("Type", "INT64", p::Type::INT64.0),
        ("Type", "INT96", p::Type::INT96.0),
        ("Type", "FLOAT", p::Type::FLOAT.0),
        ("Type", "DOUBLE", p::Type::DOUBLE.0),
        ("Type", "BYTE_ARRAY", p::Type::BYTE_ARRAY.0),
        ("Type", "FIXED_LEN_BYTE_ARRAY", p::Type::FIXED_LEN_BYTE_ARRAY.0),
        ("ConvertedType", "UTF8", p::ConvertedType::UTF8.0),
        ("ConvertedType", "MAP", p::ConvertedType::MAP.0),
        ("ConvertedType", "MAP_KEY_VALUE", p::ConvertedType::MAP_KEY_VALUE.0),
        ("ConvertedType", "LIST", p::ConvertedType::LIST.0),
        ("ConvertedType", "ENUM", p::ConvertedType::ENUM.0),
        ("ConvertedType", "DECIMAL", p::ConvertedType::DECIMAL.0),
        ("ConvertedType", "DATE", p::ConvertedType::DATE.0),
        ("ConvertedType", "TIME_MILLIS", p::ConvertedType::TIME_MILLIS.0),
        ("ConvertedType", "TIME_MICROS", p::ConvertedType::TIME_MICROS.0),
        ("ConvertedType", "TIMESTAMP_MILLIS", p::ConvertedType::TIMESTAMP_MILLIS.0),
        ("ConvertedType", "TIMESTAMP_MICROS", p::ConvertedType::TIMESTAMP_MICROS.0),
        ("ConvertedType", "UINT_8", p::ConvertedType::UINT_8.0),
        ("ConvertedType", "UINT_16", p::ConvertedType::UINT_16.0),
        ("ConvertedType", "UINT_32", p::ConvertedType::UINT_32.0),
        ("ConvertedType", "UINT_64", p::ConvertedType::UINT_64.0),
        ("ConvertedType", "INT_8", p::ConvertedType::INT_8.0),
        ("ConvertedType", "INT_16", p::ConvertedType::INT_16.0),
        ("ConvertedType", "INT_32", p::ConvertedType::INT_32.0),
        ("ConvertedType", "INT_64", p::ConvertedType::INT_64.0),
        ("ConvertedType", "JSON", p::ConvertedType::JSON.0),
        ("ConvertedType", "BSON", p::ConvertedType::BSON.0),
        ("ConvertedType", "INTERVAL", p::ConvertedType::INTERVAL.0),
        ("FieldRepetitionType", "REQUIRED", p::FieldRepetitionType::REQUIRED.0),
        ("FieldRepetitionType", "OPTIONAL", p::FieldRepetitionType::OPTIONAL.0),
        ("FieldRepetitionType", "REPEATED", p::FieldRepetitionType::REPEATED.0),
        ("EdgeInterpolationAlgorithm", "SPHERICAL", p::EdgeInterpolationAlgorithm::SPHERICAL.0),
        ("EdgeInterpolationAlgorithm", "VINCENTY", p::EdgeInterpolationAlgorithm::VINCENTY.0),
        ("EdgeInterpolationAlgorithm", "THOMAS", p::EdgeInterpolationAlgorithm::THOMAS.0),
        ("EdgeInterpolationAlgorithm", "ANDOYER", p::EdgeInterpolationAlgorithm::ANDOYER.0),
        ("EdgeInterpolationAlgorithm", "KARNEY", p::EdgeInterpolationAlgorithm::KARNEY.0),
        ("Encoding", "PLAIN", p::Encoding::PLAIN.0),
        ("Encoding", "PLAIN_DICTIONARY", p::Encoding::PLAIN_DICTIONARY.0),
        ("Encoding", "RLE", p::Encoding::RLE.0),
        ("Encoding", "BIT_PACKED", p::Encoding::BIT_PACKED.0),
        ("Encoding", "DELTA_BINARY_PACKED", p::Encoding::DELTA_BINARY_PACKED.0),
        ("Encoding", "DELTA_LENGTH_BYTE_ARRAY", p::Encoding::DELTA_LENGTH_BYTE_ARRAY.0),
        ("Encoding", "DELTA_BYTE_ARRAY", p::Encoding::DELTA_BYTE_ARRAY.0),
        ("Encoding", "RLE_DICTIONARY", p::Encoding::RLE_DICTIONARY.0),
        ("Encoding", "BYTE_STREAM_SPLIT", p::Encoding::BYTE_STREAM_SPLIT.0),
        ("CompressionCodec", "UNCOMPRESSED", p::CompressionCodec::UNCOMPRESSED.0),
        ("CompressionCodec", "SNAPPY", p::CompressionCodec::SNAPPY.0),
        ("CompressionCodec", "GZIP", p::CompressionCodec::GZIP.0),
        ("CompressionCodec", "LZO", p::CompressionCodec::LZO.0),
        ("CompressionCodec", "BROTLI", p::CompressionCodec::BROTLI.0),
        ("CompressionCodec", "LZ4", p::CompressionCodec::LZ4.0),
        ("CompressionCodec", "ZSTD", p::CompressionCodec::ZSTD.0),
        ("CompressionCodec", "LZ4_RAW", p::CompressionCodec::LZ4_RAW.0),
        ("PageType", "DATA_PAGE", p::PageType::DATA_PAGE.0),
        ("PageType", "INDEX_PAGE", p::PageType::INDEX_PAGE.0),
        ("PageType", "DICTIONARY_PAGE", p::PageType::DICTIONARY_PAGE.0),
        ("PageType", "DATA_PAGE_V2", p::PageType::DATA_PAGE_V2.0),
        ("BoundaryOrder", "UNORDERED", p::BoundaryOrder::UNORDERED.0),
        ("BoundaryOrder", "ASCENDING", p::BoundaryOrder::ASCENDING.0),
        ("BoundaryOrder", "DESCENDING", p::BoundaryOrder::DESCENDING.0),
    ]
}
