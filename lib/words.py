"""Words with a meaning in some SQL dialect or in other clauses, which are ordinary names for this tool."""

OTHER_WORDS = tuple(
    """
    _file_name _partitiontime _row _table _tablesuffix abort above absolute access action add admin after age
    aggregate alias allocate also alter always analyse analyze any apply april are array asensitive asof assert
    assignment asymmetric at atomic attribute august authorization auto average backup backward base before begin
    begin_date bernoulli bigint binary bit blob block body boolean both breadth bucket buffer bulk cache call
    cascade cascaded catalog category century chain char character check checkpoint city class clob close cluster
    code collate collation collection column columns comment comments commit committed compute condition
    configuration conflict connect connection constraint content continue conversion convert copy corr cost counter
    country create created_at createdat csv cube cume currency cursor cycle data database dataset date_diff date_sub
    datetime datetime_trunc dayofquarter days deallocate dec decade december decimal declare default defaults
    deferred define definer delete delimiter delta dense depth describe deterministic device dictionary diff disable
    discard div do document domain double dow dow_name doy drop dynamic element email enable encoding encrypted
    ended enum epoch equals error escape event every exact exchange exclude excluded exclusive exec execute exit
    expires explain extension external extract_date false_positive family feb february fetch field fields file
    filler final flag float64 flush following_id for force foreign format forward found free freeze fri friend
    from_date fulltext function functions fusion general generated geometry global go goto grant grouped grouping
    groups hash header high hint histogram hold hosts hour_of hourly hours id_from identity ignored ilike immediate
    implicit import increment index indexed indexes indicator inherit initial inline inner_join inout input insert
    instead int2 int4 int8 integer into invoke invoker isnull iso isodow isolation isoweek isoyear item items
    iterate jan january json july june key keys kill label language large last_name lastmodified lateral lead
    leading leakproof left_id length less level library limited line lines list listen ln load local locale location
    lock locked log logged long loop low mapping march mask match matched materialized maxvalue may md5 mean measure
    median member merge message meta method microseconds millennium millisecond milliseconds min_date minus minutes
    minvalue mod mode modify module mon monday_x money monthly months move multiset names national natural nchar
    nested new next nextval nfcd nfk nfkcd nil noaction none normal normalize notice notify notnull november now
    nowait nth null_count number numeric object october of off offsets oid old online only open operator option
    options ordinal ordinality others out outer_id overlaps overlay override owned owner package page parallel
    parameter parent parse partial partitioned partitions password path percent percentile period permanent pivot
    placing plan plus policy position power precision prefix prepare preserve primary prior privileges procedure
    process program project public publication purge qualify qualify_x quarterly quarters query quote random
    range_id rank ranked read real recheck record recursive ref references referencing refresh regex regexp region
    reindex relative release rename repeat replica reset resource respected restart restrict result return returning
    returns revoke right_id role rollback routine row_id rows_per rule safe_cast sample sat savepoint scalar scale
    schema scope score scroll search seconds section security seed segment select_one sensitive september sequence
    sequences serial server session set sets shape share show similar simple size skip smallint snapshot some source
    space sparse sql stable stage standalone start state statement static statistics status stdin stop storage store
    strict string_agg struct subpartition substr substring subtype success sum_total sun symmetric synonym system
    table tables tablesample tag target temp template temporary ten tenant text than then_some thu ties time
    time_trunc timestamp_diff timestamp_micros timestamptz timezone tiny title to today token tomorrow top total
    trailing transaction transform translate treat trigger trim true_positive truncate trusted try_cast tues type
    types unbound uncommitted unencrypted union_id unique unknown unlisten unlock unlogged unnest_x unpivot until
    update upsert url usage use user username users utc uuid vacuum valid validate validator value values varchar
    variable variadic varying verbose version view views visible volatile wait wed week_of weekday weekly weeks
    when_done where_to whitespace window with_tax within without work wrapper write xml yearly years yesterday zone
""".split()
)
